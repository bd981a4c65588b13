// Unicode 17 ICU: for every scalar print cp nfd nfkd nfc nfkc where != identity, plus gc mark/unassigned
const fs=require('fs');const o=[];
const hx=s=>[...s].map(c=>c.codePointAt(0).toString(16).toUpperCase().padStart(4,'0')).join(' ');
const gcs=['Lu','Ll','Lt','Lm','Lo','Mn','Mc','Me','Nd','Nl','No','Pc','Pd','Ps','Pe','Pi','Pf','Po','Sm','Sc','Sk','So','Zs','Zl','Zp','Cc','Cf','Cs','Co','Cn'].map(g=>[g,new RegExp('^\\p{gc='+g+'}$','u')]);
for(let i=0;i<0x110000;i++){ if(i>=0xD800&&i<0xE000)continue; const c=String.fromCodePoint(i);
 const g=gcs.find(x=>x[1].test(c))[0];
 o.push([i.toString(16).toUpperCase().padStart(4,'0'),g,hx(c.normalize('NFD')),hx(c.normalize('NFKD')),hx(c.normalize('NFC')),hx(c.normalize('NFKC'))].join(';'));
}
fs.writeFileSync('node17.txt',o.join('\n')+'\n');
console.log(process.versions.unicode,o.length);
