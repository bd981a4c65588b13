import unicodedata as u
f=open('py15.txt','w')
for i in range(0x110000):
    if 0xD800<=i<0xE000: continue
    c=chr(i)
    f.write(f"{i:04X};{u.category(c)};{u.combining(c)};{u.decomposition(c)}\n")
print(u.unidata_version)
