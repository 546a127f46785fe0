import sys
sys.path.insert(0,'/root/t')
def edit(f,pairs,root='/tmp/seedrepo'):
    p=f'{root}/{f}'; b=open(p,'rb').read(); crlf=b'\r\n' in b
    s=b.decode().replace('\r\n','\n')
    for o,n in pairs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write(s.encode())
