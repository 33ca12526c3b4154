"""development aid: survey.py <prop> <runs> [cfg] : runs seeds on 8 workers and prints violation classes with examples"""
import sys, os, json, subprocess, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, n = sys.argv[1], int(sys.argv[2]); cfg = sys.argv[3] if len(sys.argv) > 3 else "base"
exe = "%s/build/%s/hiopsim" % (V, cfg)
ps = [subprocess.Popen([exe, "--prop", prop, "--seed", os.environ.get("VERIF_SEED", "1"), "--start", str(k), "--stride", "8", "--count", str((n + 7) // 8), "--time", "600", "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=V + "/build") for k in range(8)]
import time; t = time.time()
res = []
import threading
o = [None] * 8
def rd(k): o[k] = ps[k].communicate()[0]
th = [threading.Thread(target=rd, args=(k,)) for k in range(8)]; [x.start() for x in th]; [x.join() for x in th]
for x in o:
    for l in x.splitlines():
        try: res.append(json.loads(l))
        except ValueError: print("bad", l[:200])
res.sort(key=lambda d: d["i"])
c = collections.OrderedDict(); st = collections.Counter()
for d in res:
    for v in d["viol"]: c.setdefault(v["cls"], []).append((d["i"], v["msg"], d["desc"]))
    st.update(d["ctr"])
print("runs", len(res), "nontriv", sum(d["nontriv"] for d in res), "time %.1f" % (time.time() - t), [p.returncode for p in ps])
for k, l in sorted(c.items(), key=lambda x: -len(x[1])):
    print("== %4d %s" % (len(l), k))
    for i, m, d in l[:int(os.environ.get('EX','1'))]: print("      [%d] %s\n           %s" % (i, m[:230], d.replace(' verbosity_level=0 print_options=no','')[:420]))
print({k: v for k, v in sorted(st.items())})
