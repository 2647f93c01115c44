"""Freeze the library vocabulary of the analysed package (run once, by hand, at the pinned commit)."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from gvg.kit import *

EXTRA = """numpy.median numpy.mean numpy.max numpy.min numpy.argmax numpy.argmin numpy.ceil numpy.floor numpy.round numpy.abs numpy.conj
numpy.real numpy.imag numpy.transpose numpy.sin numpy.cos numpy.tan numpy.sqrt numpy.exp numpy.log numpy.log10 numpy.any numpy.all
numpy.sort numpy.argsort numpy.cumsum numpy.diff numpy.sum numpy.prod numpy.std numpy.var numpy.nanmean numpy.nanstd numpy.nanmax numpy.nanmin
numpy.isnan numpy.isfinite numpy.zeros numpy.ones numpy.empty numpy.full numpy.arange numpy.linspace numpy.geomspace numpy.logspace
numpy.concatenate numpy.hstack numpy.vstack numpy.unique numpy.matmul numpy.dot numpy.outer numpy.linalg.inv numpy.linalg.det numpy.trace
numpy.fft.fft numpy.fft.rfft numpy.fft.ifft numpy.fft.irfft numpy.fft.fftfreq numpy.fft.rfftfreq numpy.flipud numpy.fliplr numpy.flip
numpy.angle numpy.sign numpy.power numpy.clip numpy.maximum numpy.minimum numpy.allclose numpy.isclose numpy.array_equal
int float str bool len abs min max round sorted sum any all list tuple set dict zip enumerate range reversed map filter isinstance hasattr getattr
repr type print open .lower .upper .strip .split .join .replace .format .startswith .endswith .keys .values .items .get .pop .append
.extend .insert .remove .index .count .sort .reverse .copy .update .setdefault .read .write .readline .readlines
.search .match .finditer .findall .fullmatch .groups .group .flatten .ravel .reshape .tolist .astype .conj .mean .max .min .sum .std .dot .T
math.ceil math.floor math.sqrt math.pi math.isnan math.isclose copy.copy copy.deepcopy json.dump json.load json.dumps json.loads
scipy.signal.detrend scipy.signal.windows.tukey re.compile re.escape re.search re.match re.findall re.finditer""".split()
pkg = Package()
V = set(EXTRA)
K = Kit(pkg, "vocab")
for m in pkg.repo_modules():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                V.add("." + n.func.attr)
    items = [(None, f) for f in m.funcs.values()] + [(c, f) for c in m.classes.values() for f in c.methods.values()]
    for c, f in items:
        seen = set()
        r = K.run(FuncV(f, m, None, c), no_inline=("*.run", "Array1D.from_files", "*.from_array", "*.from_array1d", "*.transform"))
        for t in [r.term, r.raises()] + [a for e in r.events for a in e.args if isinstance(a, T)]:
            for x in walk(t, seen):
                if x.op == "call" and callee(x):
                    V.add(callee(x))
        for e in r.events:
            V.add(e.name if not e.kind == "mcall" else "." + e.name.lstrip("."))
open(os.path.join(os.path.dirname(os.path.abspath(I.__file__)), "vocab.txt"), "w").write("\n".join(sorted(v for v in V if v and " " not in v)) + "\n")
