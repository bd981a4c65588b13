package main
import ("fmt";"os";"bufio";"golang.org/x/text/unicode/norm")
func main(){ w:=bufio.NewWriter(os.Stdout); defer w.Flush()
 fmt.Fprintln(os.Stderr,norm.Version)
 for i:=rune(0);i<0x110000;i++{ if i>=0xD800&&i<0xE000{continue}
  s:=string(i)
  c,d,yc,yd,b,_:=norm.Dump(norm.NFC,s)
  _,d2,ykc,ykd,_,_:=norm.Dump(norm.NFKC,s)
  hx:=func(s string)string{o:="";for _,r:=range s{ if o!=""{o+=" "}; o+=fmt.Sprintf("%04X",r)};return o}
  fmt.Fprintf(w,"%04X;%d;%s;%s;%v;%v;%v;%v;%v;%s;%s\n",i,c,hx(d),hx(d2),yc,ykc,yd,ykd,b,hx(norm.NFC.String(s)),hx(norm.NFKC.String(s)))
 }}
