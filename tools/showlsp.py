import json,sys
r=json.load(open(sys.argv[1]))
print(json.dumps(r['scenario'],ensure_ascii=False)[:3000]); 
for l in r['event_log']:
    w=l.split(' ')
    if w[0]=='w':
        h=w[2]; h=''.join(c for c in h if c in '0123456789abcdef'); h=h[:len(h)//2*2]
        print('w',w[1],bytes.fromhex(h).decode(errors='replace')[:300])
    else: print(l)
