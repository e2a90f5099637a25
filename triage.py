import glob,re,sys,collections
prop=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 12
gs=collections.OrderedDict()
for f in glob.glob(f'/verif/replay/{prop}/*.txt'):
    t=open(f).read(); body=t.split('\n',1)[1]
    l=body.split('\n')[0]
    m=re.search(r'@ (\S+)',body)
    key=m.group(1) if m else re.sub(r'\(.*','',l)+' '+(re.search(r'error: (.*)',body).group(1)[:40] if 'error: ' in body else '')
    gs.setdefault(key,[]).append(body)
for k,v in sorted(gs.items(),key=lambda x:-len(x[1])):
    v.sort(key=len); print('=====',k,len(v))
    for b in v[:n]: print(b[:700])
