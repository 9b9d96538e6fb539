"""Lemmas over the specification functions of the geometry layer, discharged by z3 on every run.
P(0)=1, P(d+1)=P(d)*s(d): products of extents.  Inductive lemmas are stated as base and step.
Division is C++ division on nonnegative operands: x = q*a + r, 0 <= r < a, written out with q and r."""
import z3, time


class Lem(object):
    def __init__(self, name, hyps, goal): self.name = name; self.hyps = hyps; self.goal = goal; self.ok = None; self.by = 'z3'; self.t = 0; self.why = ''; self.kind = 'lemma'; self.fn = 'lemma'; self.line = 0
    def run(self):
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 20000)
        s.add(*self.hyps); s.add(z3.Not(self.goal))
        r = s.check()
        self.ok = r == z3.unsat; self.why = str(r); self.t = time.time() - t0
        return self.ok


def I(*ns): return [z3.Int(n) for n in ns]


def div(x, a, q, r): return z3.And(x == q * a + r, r >= 0, r < a)


def uniq(z, a): 
    """instance of lemma U: z*a between -a and a makes z zero"""
    return z3.Implies(z3.And(a > 0, z * a > -a, z * a < a), z == 0)


def arithmetic():
    out = []
    z, a = I('z', 'a')
    out.append(Lem('U: -a < z*a < a, a > 0 => z = 0', [a > 0, z * a > -a, z * a < a], z == 0))
    x, q, r, q2, r2, k, q1, r1, q3, r3, b = I('x', 'q', 'r', 'q2', 'r2', 'k', 'q1', 'r1', 'q3', 'r3', 'b')
    out.append(Lem('D0: quotient and remainder are unique', [a > 0, div(x, a, q, r), div(x, a, q2, r2), uniq(q - q2, a)], z3.And(q == q2, r == r2)))
    out.append(Lem('D1: x - (x div a)*a = x mod a', [a > 0, div(x, a, q, r)], x - q * a == r))
    out.append(Lem('D2: (x mod a*k) mod a = x mod a', [a > 0, k > 0, x >= 0, div(x, a * k, q1, r1), div(r1, a, q2, r2), div(x, a, q3, r3), uniq(q1 * k + q2 - q3, a)], r2 == r3))
    # D3: q1 = x div a, q2 = q1 div b, q3 = x div (a*b)
    out.append(Lem('D3a: 0 <= r1 < a, 0 <= r2 < b => r2*a + r1 < a*b', [a > 0, b > 0, 0 <= r1, r1 < a, 0 <= r2, r2 < b], z3.And(r2 * a + r1 < a * b, r2 * a + r1 >= 0)))
    m = z3.Int('m')
    out.append(Lem('D3: (x div a) div b = x div (a*b)', [a > 0, b > 0, m == a * b, m > 0, div(x, a, q1, r1), div(q1, b, q2, r2), 0 <= r2 * a + r1, r2 * a + r1 < m,
                                                         x == q2 * m + (r2 * a + r1), div(x, m, q3, r3), uniq(q2 - q3, m)], q2 == q3))
    out.append(Lem('D3b: x = q1*a + r1, q1 = q2*b + r2 => x = q2*(a*b) + (r2*a + r1)', [x == q1 * a + r1, q1 == q2 * b + r2], x == q2 * (a * b) + (r2 * a + r1)))
    # D4: (x div a) mod b = (x mod a*b) div a
    q4, r4 = I('q4', 'r4')
    out.append(Lem('D4: (x div a) mod b = (x mod a*b) div a', [a > 0, b > 0, m == a * b, div(x, a, q1, r1), div(q1, b, q2, r2), div(x, m, q3, r3), div(r3, a, q4, r4),
                                                               q2 == q3, x == q2 * m + (r2 * a + r1), uniq(q4 - r2, a)], q4 == r2))
    out.append(Lem('D5, D6: 0 <= x < a => x mod a = x, x div a = 0', [x >= 0, x < a, div(x, a, q, r), uniq(q, a)], z3.And(q == 0, r == x)))
    out.append(Lem('D7: division of x and x-1', [a > 0, x >= 1, div(x, a, q, r), div(x - 1, a, q2, r2), uniq(q - q2, a), uniq(q - q2 - 1, a)], z3.Or(z3.And(q == q2, r == r2 + 1), z3.And(q == q2 + 1, r == 0, r2 == a - 1))))
    # sums: prefix sums T(0)=0, T(n+1)=T(n)+f(n); R(0)=0, R(n+1) = R(n) + f(N-1-n)
    T = z3.Function('T', z3.IntSort(), z3.IntSort()); R = z3.Function('R', z3.IntSort(), z3.IntSort()); f = z3.Function('f', z3.IntSort(), z3.IntSort())
    n, N = I('n', 'N')
    out.append(Lem('S1: step of  R(n) = T(N) - T(N-n)', [0 <= n, n < N, T(N - n) == T(N - n - 1) + f(N - n - 1), R(n + 1) == R(n) + f(N - 1 - n), R(n) == T(N) - T(N - n)], R(n + 1) == T(N) - T(N - n - 1)))
    # affine recurrence g(t+1) = a(t)*g(t) + b(t);  W(t) = prod a(<t), Y(t) = sum_s b(s)*prod_{s<r<t} a(r): Y(t+1) = a(t)*Y(t) + b(t)
    g, w, y, v0, at, bt = I('g', 'w', 'y', 'v0', 'at', 'bt')
    out.append(Lem('A: step of the closed form v0*W + Y of g = a*g + b', [g == v0 * w + y], at * g + bt == v0 * (w * at) + (y * at + bt)))
    return out


def radix():
    """mixed radix representation: x(d) in [0,s(d)), T(k) = sum_{d<k} x(d)*P(d)"""
    out = []
    s, P, Pn, x, T, Tn = I('s', 'P', 'Pn', 'x', 'T', 'Tn')
    out.append(Lem('products of positive extents are positive (step)', [P >= 1, s >= 1, Pn == P * s], Pn >= 1))
    out.append(Lem('S3 / range: 0 <= T(k) < P(k) (step)', [P >= 1, s >= 1, 0 <= x, x < s, 0 <= T, T < P, Pn == P * s, Tn == T + x * P, x * P <= (s - 1) * P, x * P >= 0], z3.And(Tn >= 0, Tn < Pn)))
    out.append(Lem('S3 / range: 0 <= x <= s-1, P >= 1 => 0 <= x*P <= (s-1)*P', [P >= 1, 0 <= x, x < s], z3.And(x * P >= 0, x * P <= (s - 1) * P)))
    # telescoping: U(k) = off mod P(k)
    off, U, Un, q, r, q1, r1, c, rc = I('off', 'U', 'Un', 'q', 'r', 'q1', 'r1', 'c', 'rc')
    out.append(Lem('offset of the coordinates: sum_{e<k} c(e)*P(e) = off mod P(k) (step, uses D2)',
                   [P >= 1, s >= 1, Pn == P * s, div(off, Pn, q1, r1), div(r1, P, c, rc), div(off, P, q, r), rc == r, U == r, Un == U + c * P], Un == r1))
    out.append(Lem('offset of the coordinates: off mod P(n) = off', [0 <= off, off < P, div(off, P, q, r), uniq(q, P)], r == off))
    out.append(Lem('coordinates are inside the shape', [P >= 1, s >= 1, 0 <= r1, r1 < P * s, div(r1, P, c, rc), z3.Implies(c >= s, c * P >= s * P)], z3.And(c >= 0, c < s)))
    out.append(Lem('coordinates are inside the shape: c >= s => c*P >= s*P', [P >= 1, c >= s], c * P >= s * P))
    out.append(Lem('coordinates are inside the shape: c*P + r >= 0, 0 <= r < P => c >= 0', [P >= 1, 0 <= r, r < P, c * P + r >= 0], c >= 0))
    # inverse: T(m) = P(k)*R + T(k) for k <= m;  P(m) = P(k)*Q
    R, Q, Pk, Tk, Pm, xm, Tm, Tm1 = I('R', 'Q', 'Pk', 'Tk', 'Pm', 'xm', 'Tm', 'Tm1')
    out.append(Lem('inverse: higher coordinates add multiples of P(k) (step)', [Tm == Pk * R + Tk, Pm == Pk * Q, Tm1 == Tm + xm * Pm], Tm1 == Pk * (R + xm * Q) + Tk))
    out.append(Lem('inverse: T(n) mod P(k) = T(k)', [Pk >= 1, Tm == Pk * R + Tk, 0 <= Tk, Tk < Pk, div(Tm, Pk, q, r), uniq(q - R, Pk)], r == Tk))
    out.append(Lem('inverse: (T(n) mod P(k+1)) div P(k) = x(k)', [P >= 1, 0 <= T, T < P, Tn == T + x * P, div(Tn, P, c, rc), uniq(c - x, P)], c == x))
    return out


def partition():
    """tiles of one dimension: g = ceil(S/b), tile u covers [u*b, u*b + e(u)), e(u) = b except e(g-1) = S-(g-1)*b"""
    out = []
    S, b, g, u, u2, x, e, e2, q, r, l = I('S', 'b', 'g', 'u', 'u2', 'x', 'e', 'e2', 'q', 'r', 'l')
    base = [S >= 1, b >= 1, g >= 1, (g - 1) * b < S, S <= g * b, l == S - (g - 1) * b]
    ext = lambda u: z3.If(u == g - 1, l, b)
    out.append(Lem('the last extent is between 1 and the base extent', base, z3.And(1 <= l, l <= b)))
    out.append(Lem('the number of tiles is unique', base + [u >= 1, (u - 1) * b < S, S <= u * b, z3.Implies(u >= g + 1, (u - 1) * b >= g * b), z3.Implies(u <= g - 1, u * b <= (g - 1) * b)], u == g))
    out.append(Lem('every element is in the tile x div b', base + [0 <= x, x < S, div(x, b, q, r), z3.Implies(q >= g, q * b >= g * b), z3.Implies(q <= -1, q * b <= -b)],
                   z3.And(0 <= q, q < g, x >= q * b, x < q * b + ext(q))))
    out.append(Lem('every element is in one tile only', base + [0 <= u, u < g, 0 <= u2, u2 < g, u * b <= x, x < u * b + ext(u), u2 * b <= x, x < u2 * b + ext(u2), 1 <= l, l <= b,
                                                              z3.Implies(u2 >= u + 1, u2 * b >= (u + 1) * b), z3.Implies(u >= u2 + 1, u * b >= (u2 + 1) * b)], u == u2))
    out.append(Lem('tiles stay inside the tensor', base + [0 <= u, u < g, z3.Implies(u <= g - 2, (u + 1) * b <= (g - 1) * b)], u * b + ext(u) <= S))
    y, z, w = I('y', 'z', 'w')
    out.append(Lem('monotone: y >= z, w >= 1 => y*w >= z*w', [w >= 1, y >= z], y * w >= z * w))
    out.append(Lem('extents add up', base, (g - 1) * b + l == S))
    return out
