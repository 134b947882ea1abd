import json,sys
x=json.load(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'evidence',sys.argv[1]+'.json')))
e=x['coverage'];print(e['discharged'],'/',e['obligations'],'bounded',e['bounded_discharged'],'/',e['bounded_obligations'], x['wall_s'])
for h in sorted(e['harnesses'],key=lambda h:-h['ms']): print('%8.1fs %-10s %s'%(h['ms']/1000,h['status'],h['harness'].split('::')[-1]))
for u in e['undecided']: print('UNDECIDED',u)
