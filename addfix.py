import sys,json
pid,h,text=sys.argv[1:4]
s=open('/verif/known-findings.json').read()
e=json.dumps({"status":"fixed","text":"fixed: property=%s %s %s"%(pid,h,text)})
s=s.replace('"}\n]}','"},\n '+e+'\n]}')
json.loads(s); open('/verif/known-findings.json','w').write(s)
