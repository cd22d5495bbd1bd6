import re
from fractions import Fraction as F
src=open('/opt/venv/lib/python3.12/site-packages/diffrax/_solver/tsit5.py').read()
seg=src[src.index('_tsit5_tableau'):]
nums=lambda s:[F(n.replace(' ','')) if '/' not in n else F(int(n.split('/')[0]),int(n.split('/')[1])) for n in re.findall(r'-?\d+ ?/ ?\d+|-?\d*\.\d+(?:e-?\d+)?',re.sub(r'#.*','',s))]
al=seg[seg.index('a_lower'):seg.index('b_sol')]
flat=nums(al)
A=[];k=0
for n in range(1,7): A.append(flat[k:k+n]); k+=n
assert k==len(flat),(k,len(flat))
bs=nums(seg[seg.index('b_sol'):seg.index('b_error')])
be=seg[seg.index('b_error'):seg.index('    c=')]
be=re.sub(r'#.*','',be)
be=be[be.index('[')+1:be.index(']')]
out=[]
for item in be.split(','):
    it=item.strip()
    if not it: continue
    it=' '.join(it.split())
    m=re.match(r'^(-?[\d./ e-]*?\d) ([-+]) (-?[\d./e-]+(?: / \d+)?)$',it)
    def P(x):
        x=x.strip()
        return F(int(x.split('/')[0]),int(x.split('/')[1])) if '/' in x else F(x)
    if m: out.append(P(m[1])+(1 if m[2]=='+' else -1)*P(m[3]))
    else: out.append(P(it))
be=out
assert len(bs)==7 and len(be)==7, (len(bs),len(be))
print(float(sum(bs)),float(sum(be)))
R=lambda s:[F(x) for x in s.split()]
meth={
 'Euler':([],R('1'),[]),
 'Midpoint':([R('1/2')],R('0 1'),[]),
 'Heun':([R('1')],R('1/2 1/2'),R('1/2 -1/2')),
 'Bosh3':([R('1/2'),R('0 3/4'),R('2/9 1/3 4/9')],R('2/9 1/3 4/9 0'),[F(2,9)-F(7,24),F(1,3)-F(1,4),F(4,9)-F(1,3),F(-1,8)]),
 'Dopri5':([R('1/5'),R('3/40 9/40'),R('44/45 -56/15 32/9'),R('19372/6561 -25360/2187 64448/6561 -212/729'),R('9017/3168 -355/33 46732/5247 49/176 -5103/18656'),R('35/384 0 500/1113 125/192 -2187/6784 11/84')],
   R('35/384 0 500/1113 125/192 -2187/6784 11/84 0'),
   [a-b for a,b in zip(R('35/384 0 500/1113 125/192 -2187/6784 11/84 0'),R('1951/21600 0 22642/50085 451/720 -12231/42400 649/6300 1/60'))]),
 'Tsit5':(A,bs,be)}
def I(f):
    v=f*10**40
    return str((2*v.numerator+v.denominator)//(2*v.denominator))
def L(x): return 'List('+', '.join(I(v) for v in x)+')' if len(x)<2 else '['+', '.join(I(v) for v in x)+']'
o='''// -*- mode: Bluespec; -*-
/// Explicit Runge-Kutta methods: published tableaus (40 decimals), the recurrence, the
/// embedded error estimate and the step-size law of the default controller.
module methods {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_env.* from "./c_env"

  type Tableau = { a: List[List[int]], b: List[int], e: List[int], order: int }
'''
order=dict(Euler=1,Midpoint=2,Heun=2,Bosh3=3,Dopri5=5,Tsit5=5)
for n,(a,b,e) in meth.items():
    aa='List('+',\n    '.join(L(r) for r in a)+')' if a else '[]'
    o+=f"  pure val {n.upper()}: Tableau = {{ order: {order[n]},\n   a: {aa},\n   b: {L(b)},\n   e: {L(e) if e else '[]'} }}\n"
o+='''  pure def tableau(m: int): Tableau =
    if (m == 0) EULER else if (m == 1) MIDPOINT else if (m == 2) HEUN else if (m == 3) BOSH3
    else if (m == 4) DOPRI5 else TSIT5

  /// all stages of a step: the slopes (velocity, acceleration)
  pure def stages(tb: Tableau, env: Env, s: State, h: int): List[State] =
    tb.a.foldl(List({ r: s.v, v: accel(env, s.r) }), (ks, row) =>
      pure val y = range(0, row.length()).foldl(s, (acc, i) =>
        pure val c = mul(h, row[i])
        { r: add(acc.r, scale(c, ks[i].r)), v: add(acc.v, scale(c, ks[i].v)) })
      ks.append({ r: y.v, v: accel(env, y.r) }))
  pure def combine(s: State, h: int, ks: List[State], b: List[int]): State =
    range(0, b.length()).foldl(s, (acc, i) =>
      pure val c = mul(h, b[i])
      { r: add(acc.r, scale(c, ks[i].r)), v: add(acc.v, scale(c, ks[i].v)) })
  pure def rkStep(tb: Tableau, env: Env, s: State, h: int): State =
    combine(s, h, stages(tb, env, s, h), tb.b)

  /// op 65: [method, env(5), x(6), y(6), n, t0 .. tn]
  pure def oblGrid(eps: int, l: List[int]): List[Obl] =
    pure val tb = tableau(l[0] / ONE)
    pure val env = envAt(l, 1)
    pure val x = { r: v3(l, 6), v: v3(l, 9) }
    pure val n = l[18] / ONE
    pure val z = range(0, n).foldl((x, 0, 0), (a, i) =>
      pure val h = l[20 + i] - l[19 + i]
      pure val y = rkStep(tb, env, a._1, h)
      // size of the summands, and growth of earlier errors
      pure val rate = div(norm(y.v) + norm(a._1.v), norm(y.r) + norm(a._1.r))
      (y, a._2 + mul(abs(h), norm(a._1.v) + norm(y.v)), a._3 + mul(abs(h), rate)))
    pure val grow = ONE + 8 * z._3 + 8 * sq(z._3)
    pure val k = mul(ulps(64 * (n + 1), eps, ONE), grow)
    pure val vs = imax(norm(x.v), norm(z._1.v))
    pure val acc = imax(norm(accel(env, x.r)), norm(accel(env, z._1.r)))
    [ closeV(1, v3(l, 12), z._1.r, mul(k, norm(x.r) + norm(z._1.r) + z._2)),
      closeV(2, v3(l, 15), z._1.v, mul(k, vs + mul(abs(l[19 + n] - l[19]), acc))) ]

  /// The default controller on one accepted step.
  /// op 67: [method, env(5), rtol, atol, h, x(6), y(6), hnext, kind]
  /// kind 0: the next step was clipped or followed a rejection (upper bound only),
  ///      1: the next step was chosen by the law, 2: there is no next step
  pure def oblControl(eps: int, l: List[int]): List[Obl] =
    pure val tb = tableau(l[0] / ONE)
    pure val env = envAt(l, 1)
    pure val rtol = l[6]
    pure val atol = l[7]
    pure val h = l[8]
    pure val x = { r: v3(l, 9), v: v3(l, 12) }
    pure val y = { r: v3(l, 15), v: v3(l, 18) }
    pure val ks = stages(tb, env, x, h)
    pure val zero = { r: (0, 0, 0), v: (0, 0, 0) }
    pure val er = combine(zero, h, ks, tb.e)
    pure def part(e: int, a: int, b: int): int = sq(div(e, atol + mul(rtol, imax(abs(a), abs(b)))))
    pure val sum = range(0, 3).foldl(0, (acc, i) =>
      acc + part(comp(er.r, i), comp(x.r, i), comp(y.r, i)) + part(comp(er.v, i), comp(x.v, i), comp(y.v, i)))
    // root mean square of the scaled error; rounding of the implementation's estimate
    pure val err = sqrtF(sum / 6)
    pure val noise = div(mul(64 * eps, imax(amax(x.r), amax(x.v))), atol)
    pure val q = div(l[21], mul(9 * ONE / 10, h))
    // (hnext / (0.9 h))^order * err = 1 unless clipped to [1, 10]
    pure val law = mul(if (tb.order == 5) mul(sq(sq(q)), q) else if (tb.order == 3) mul(sq(q), q) else sq(q), err)
    pure val slack = ONE / 1000 + 8 * mul(law, div(noise, imax(err, 10^20)))
    [ holds(1, err <= ONE + ONE / 1000 + noise),
      holds(2, l[22] == 2 * ONE or law <= ONE + slack or l[21] <= h + h / 10^6),
      holds(3, l[22] != ONE or abs(law - ONE) <= slack or abs(l[21] - 10 * h) <= h / 10^4 or abs(l[21] - h) <= h / 10^4) ]
}
'''
open('/verif/spec/methods.qnt','w').write(o)
