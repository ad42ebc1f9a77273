"""Writes DESIGN.md (run by hand; no check reads it)."""
import importlib,sys,json,os,re
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0,V+'/harness')
head=open(HERE+'/head.md').read()
rows=[]
first=json.load(open(HERE+'/first.json'))
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s | caught |'%(d,m['property'],first.get(d,'caught')))
tail=open(HERE+'/tail.md').read().replace('@@TABLE@@','\n'.join(rows))
REACH={
'C01':"The sanitizers watch every access of every call; the tests run an uninstrumented build on a few well-formed arrays, where an overrun or an uninitialised value passes.",
'C02':"The tests compare the implementations on one or two models; here every layer count, layout, dtype and special offset is drawn, and the side without extension modules is really imported.",
'C03':"Tests compare implementations with each other. The reference here is written from the impedance form in 80 bit arithmetic, so a fault shared by all implementations shows.",
'C04':"Every layer, frequency, wavenumber and parameter is compared on its own; the tests' Taylor tests along random directions do not see an error in a small term.",
'C05':"Offsets with zero components and offsets next to planes and edges are drawn on purpose; these are the branches of the kernels.",
'C06':"Scales from 1e-7 to 1e8 m, both sides of the surface, the surface itself, every order of assignments.",
'C07':"Every relation of a point to a prism (12 kinds) is required in the evidence, against an oracle that shares no code with the kernels.",
'C08':"As C07; in addition the jump of B across a face is monitored within 1e-13 of the face.",
'C09':"The field of a tilted, displaced loop next to its axis or its wire is not sampled by any test.",
'C10':"Wires are polylines with repeated, nearly coincident, aligned nodes; map coordinates; points in line with a segment.",
'C11':"Electrodes at depth, on the surface, at the origin; pairs of receivers; everything above ground must be refused.",
'C12':"Interface conditions hold at every point of the surface and for any contrast, not for the sampled one.",
'C13':"Twelve decades of induction number, several frequencies at once, both regimes; Maxwell's equations are taken from returned values.",
'C14':"As C13 for waves: polarisations other than X and Y, heights above and below.",
'C15':"Induction numbers over seven decades; Sommerfeld integrals share no formula with the closed form.",
'C16':"The tests compare with stored values of a few models. Here the integral itself is evaluated for each model drawn.",
'C17':"Every function with every optional argument, broadcast, at early and late times.",
'C18':"Time derivatives are compared with derivatives of returned fields, early and late.",
'C19':"As C18; three interfaces to the same solution are held against each other.",
'C20':"Points on the axis and at the origin, angles outside the principal range, complex vectors, every layout.",
'C21':"Pairs within 1e-17 of anti-parallel are drawn, where the formula is singular.",
'C22':"Every rank, empty and length-one axes, every layout; as many points as dimensions.",
'C23':"A whole-interface monitor: every constructor, setter, method and function, with byte-wise snapshots.",
'C24':"A whole-interface monitor: every method in every array form; no test evaluates a point twice.",
'C25':"Random histories with a reference model; tests assign each parameter once.",
'C26':"Every parameter of every class is offered every kind of bad value and every accepted form, with a before/after snapshot.",
'C27':"Metamorphic relations need no reference values and so run on all classes at once.",
'C28':"Schedules: yields are injected inside geoana's own lines and the number of overlapping pairs is reported; ThreadSanitizer watches the native part.",
'C29':"Faults that reach or do not reach the surface, near-vertical dips, points above edges and in the code's snapping band.",
'C30':"Every order of assignments, every zone, every form of points; plots are read back from matplotlib.",
'C31':"Every combination of options; the arrays that matplotlib receives are recorded and compared with the data.",
'C32':"Random subsets of omitted options and random ways of passing the rest; every parameter and result is compared with the spelled-out execution.",
}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man={c['property']:c for c in json.load(open(V+'/MANIFEST.json'))['checks']}
out=[head]
for p in props:
    i=p['id']; m=importlib.import_module('checks.c'+i[1:].lower())
    ev=None
    f=V+'/evidence/%s.json'%i
    q=getattr(m,'QUICK',1)
    out.append("### %s  %s\n"%(i,p['title']))
    out.append("* **Monitored.** %s."%m.RULE.split('; distinct')[0])
    out.append("* **Distinct observations** are counted as %s."%m.RULE.split('distinct = ')[-1])
    out.append("* **Oracle / technique.** %s. %s"%(man[i]['technique'],man[i]['level_note']))
    out.append("* **Bounds.** %s. Quick: %s. Thorough: %s."%('; '.join(m.ASSUMPTIONS),', '.join('%s %d'%(t[0],min(t[3],t[2]*q) if t[3]>1 else t[2]*q) for t in m.TARGETS),', '.join('%s %d'%(t[0],t[3]) for t in m.TARGETS)))
    out.append("* **Beyond the tests.** %s\n"%REACH[i])
out.append(tail)
open(V+'/DESIGN.md','w').write('\n'.join(out))
