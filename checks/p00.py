"""P00: the encoder agrees with jax at points (not a property of the repository)."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

BOUNDS = "points"
FUNCTIONS = []

X, Y, I, M = [0.5, -1.25, 2.0], [1.5, 0.75, 3.0], [2, 0, 1], [[0.0, 1.0, 2.5], [-1.0, 0.5, 4.0]]

CASES = dict(
    clip=lambda x, y, i, m: jnp.clip(x, 0, 1),
    clip_none=lambda x, y, i, m: jnp.clip(x, None, 1.0),
    minmax=lambda x, y, i, m: jnp.minimum(jnp.maximum(x, 0), y),
    where=lambda x, y, i, m: jnp.where(x > 0, x, y),
    where2=lambda x, y, i, m: jnp.where(jnp.logical_and(x > 0, y > 1), x, -1),
    select=lambda x, y, i, m: jnp.select([x < 0, x < 1], [y, 2 * y], 7.0),
    piecewise=lambda x, y, i, m: jnp.piecewise(x, [x < 0, x >= 0], [lambda t: -t, lambda t: t * t]),
    heaviside=lambda x, y, i, m: jnp.heaviside(x, 0.5),
    sign=lambda x, y, i, m: jnp.sign(x),
    abs=lambda x, y, i, m: jnp.abs(x) + jnp.fabs(y),
    floor=lambda x, y, i, m: jnp.floor(x) + jnp.ceil(y) + jnp.round(x * 1.3),
    rint=lambda x, y, i, m: jnp.rint(x * 1.3) + jnp.trunc(y),
    mod=lambda x, y, i, m: x % y + jnp.mod(y, 2) + jnp.remainder(x, 2) + jnp.fmod(x, 2),
    floordiv=lambda x, y, i, m: x // y,
    divmod=lambda x, y, i, m: jnp.divmod(x, y)[1],
    power=lambda x, y, i, m: x**2 + y**0.5 + jnp.power(y, 1.5) + jnp.square(x) + jnp.float_power(y, 2),
    cbrt=lambda x, y, i, m: y**3 + jnp.sqrt(y) + lax.rsqrt(y),
    exp=lambda x, y, i, m: jnp.exp(x) + jnp.expm1(x) + jnp.exp2(x),
    log=lambda x, y, i, m: jnp.log(y) + jnp.log1p(y) + jnp.log10(y) + jnp.log2(y),
    trig=lambda x, y, i, m: jnp.cos(x) + jnp.sin(x),
    hyper=lambda x, y, i, m: jnp.tanh(x) + jnp.sinh(x) + jnp.cosh(x),
    sigmoid=lambda x, y, i, m: jax.nn.sigmoid(x) + jax.nn.relu(x) + jax.nn.softplus(x),
    erf=lambda x, y, i, m: jax.scipy.special.erf(x),
    erfc=lambda x, y, i, m: jax.scipy.special.erfc(x),
    ndtr=lambda x, y, i, m: jax.scipy.stats.norm.cdf(x),
    normpdf=lambda x, y, i, m: jax.scipy.stats.norm.pdf(x) + jax.scipy.stats.norm.logpdf(x, 1, 2),
    hypot=lambda x, y, i, m: jnp.hypot(x, y),
    arctan2=lambda x, y, i, m: jnp.reciprocal(y) + jnp.true_divide(x, y) + jnp.negative(x),
    sum=lambda x, y, i, m: jnp.sum(m, axis=0) + jnp.prod(m, axis=0),
    mean=lambda x, y, i, m: m.mean(axis=1),
    var=lambda x, y, i, m: jnp.var(x) + jnp.std(y),
    average=lambda x, y, i, m: jnp.average(x, weights=y),
    cumsum=lambda x, y, i, m: jnp.cumsum(x) + jnp.cumprod(y),
    diff=lambda x, y, i, m: jnp.diff(x),
    max=lambda x, y, i, m: jnp.max(m, axis=1) + jnp.min(m, axis=1),
    argmax=lambda x, y, i, m: jnp.argmax(m, axis=1) + jnp.argmin(m, axis=1),
    sort=lambda x, y, i, m: jnp.sort(x),
    argsort=lambda x, y, i, m: y[jnp.argsort(x)],
    median=lambda x, y, i, m: jnp.median(x),
    quantile=lambda x, y, i, m: jnp.quantile(x, 0.3) + jnp.percentile(y, 40),
    any=lambda x, y, i, m: jnp.any(x > 1) & jnp.all(y > 0),
    allclose=lambda x, y, i, m: jnp.isclose(x, y),
    isfinite=lambda x, y, i, m: jnp.isfinite(x) & ~jnp.isnan(y),
    nan_to_num=lambda x, y, i, m: jnp.nan_to_num(x / y),
    dot=lambda x, y, i, m: jnp.dot(x, y),
    matmul=lambda x, y, i, m: m @ x,
    einsum=lambda x, y, i, m: jnp.einsum("ij,j->i", m, x),
    outer=lambda x, y, i, m: jnp.outer(x, y),
    vdot=lambda x, y, i, m: jnp.vdot(x, y) + jnp.inner(x, y) + jnp.tensordot(x, y, 1),
    norm=lambda x, y, i, m: jnp.linalg.norm(x),
    norm2=lambda x, y, i, m: jnp.linalg.norm(m, axis=1),
    stack=lambda x, y, i, m: jnp.stack([x, y], axis=1),
    concat=lambda x, y, i, m: jnp.concatenate([x, y, x[:1]]),
    hstack=lambda x, y, i, m: jnp.vstack([x, y]) + jnp.column_stack([x, y]).T,
    append=lambda x, y, i, m: jnp.append(x, y),
    pad=lambda x, y, i, m: jnp.pad(x, 1),
    tile=lambda x, y, i, m: jnp.tile(x, 2),
    repeat=lambda x, y, i, m: jnp.repeat(x, 2),
    broadcast=lambda x, y, i, m: jnp.broadcast_to(x, (2, 3)) * m,
    reshape=lambda x, y, i, m: m.reshape(3, 2).T.ravel(),
    flip=lambda x, y, i, m: jnp.flip(x) + x[::-1],
    roll=lambda x, y, i, m: jnp.roll(x, 1),
    swap=lambda x, y, i, m: jnp.swapaxes(m, 0, 1) + jnp.moveaxis(m, 0, 1) + jnp.transpose(m),
    squeeze=lambda x, y, i, m: jnp.squeeze(x[None, :, None]),
    split=lambda x, y, i, m: jnp.split(m, 3, axis=1)[1],
    index=lambda x, y, i, m: x[i],
    index2=lambda x, y, i, m: m[i % 2, i],
    take=lambda x, y, i, m: jnp.take(x, i) + jnp.take_along_axis(x, i, 0),
    atset=lambda x, y, i, m: x.at[i].set(y),
    atadd=lambda x, y, i, m: jnp.zeros(4).at[i].add(y),
    atmul=lambda x, y, i, m: x.at[1].multiply(3.0).at[:2].max(0.0),
    atget=lambda x, y, i, m: x.at[i].get(mode="clip"),
    dyn=lambda x, y, i, m: lax.dynamic_slice(x, (i[1],), (2,)),
    dynup=lambda x, y, i, m: lax.dynamic_update_slice(x, y[:1], (i[2],)),
    dynidx=lambda x, y, i, m: lax.dynamic_index_in_dim(m, i[1], 0, keepdims=False),
    digitize=lambda x, y, i, m: jnp.digitize(x, jnp.array([0.0, 1.0, 3.0])),
    searchsorted=lambda x, y, i, m: jnp.searchsorted(jnp.array([0.0, 1.0, 3.0]), x, side="right"),
    interp=lambda x, y, i, m: jnp.interp(x, jnp.array([0.0, 1.0, 3.0]), y),
    linspace=lambda x, y, i, m: jnp.linspace(x[0], x[2], 4),
    arange=lambda x, y, i, m: jnp.arange(3) * x + jnp.ones_like(x) + jnp.zeros_like(y) + jnp.full_like(x, 2.0),
    eye=lambda x, y, i, m: jnp.eye(3) * x + jnp.diag(x),
    meshgrid=lambda x, y, i, m: jnp.meshgrid(x, y)[1],
    bincount=lambda x, y, i, m: jnp.bincount(i, weights=x, length=4),
    segment=lambda x, y, i, m: jax.ops.segment_sum(x, i, 4),
    histogram=lambda x, y, i, m: jnp.histogram(x, bins=jnp.array([-2.0, 0.0, 1.0, 3.0]), weights=y)[0],
    histogram2d=lambda x, y, i, m: jnp.histogram2d(x, y, bins=[jnp.array([-2.0, 0.0, 3.0]), jnp.array([0.0, 1.0, 4.0])])[0],
    histdd=lambda x, y, i, m: jnp.histogramdd(jnp.stack([x, y], 1), bins=[jnp.array([-2.0, 0.0, 3.0]), jnp.array([0.0, 1.0, 4.0])], weights=x)[0],
    onehot=lambda x, y, i, m: jax.nn.one_hot(i, 4) * 2,
    vmap=lambda x, y, i, m: jax.vmap(lambda a, b: a * b + 1)(x, y),
    vmap2=lambda x, y, i, m: jax.vmap(lambda a: jnp.sum(a * x))(m),
    vmapw=lambda x, y, i, m: jax.vmap(lambda a, b: lax.cond(a > 0, lambda: a, lambda: b))(x, y),
    vectorize=lambda x, y, i, m: jnp.vectorize(lambda a, b: a + 2 * b)(x, y),
    mapf=lambda x, y, i, m: lax.map(lambda a: a * 2, x),
    scan=lambda x, y, i, m: lax.scan(lambda c, a: (c + a, c * a), 0.0, x)[1],
    scan2=lambda x, y, i, m: lax.scan(lambda c, a: (c * a[0] + a[1], None), 1.0, (x, y), reverse=True)[0],
    fori=lambda x, y, i, m: lax.fori_loop(0, 3, lambda k, c: c * 0.5 + x[k], 0.0),
    fori2=lambda x, y, i, m: lax.fori_loop(0, 3, lambda k, c: c.at[k].add(x[k] * y[k]), y),
    whilel=lambda x, y, i, m: lax.while_loop(lambda c: c[0] < 3, lambda c: (c[0] + 1, c[1] * 2 + c[0]), (0, x[0]))[1],
    cond=lambda x, y, i, m: lax.cond(x[0] > y[0], lambda a: a * 2, lambda a: a - 1, x[0]),
    switch=lambda x, y, i, m: lax.switch(i[0], [lambda a: a, lambda a: a * 2, lambda a: a * 3], x[0]),
    assoc=lambda x, y, i, m: lax.associative_scan(jnp.add, x),
    cummax=lambda x, y, i, m: lax.cummax(x) + jax.lax.cummin(y),
    topk=lambda x, y, i, m: lax.top_k(x, 2)[0],
    reduce=lambda x, y, i, m: lax.reduce(x, 0.0, lax.add, (0,)),
    astype=lambda x, y, i, m: x.astype(int) + i + (y > 1).astype(int),
    f64=lambda x, y, i, m: x.astype(jnp.float64) + jnp.float32(2) + i,
    bitand=lambda x, y, i, m: (x > 0) & (y > 1) | (i > 0) ^ (x > 1),
    logical=lambda x, y, i, m: jnp.logical_not(x > 0) | jnp.logical_xor(x > 1, y > 1),
    iceil=lambda x, y, i, m: jnp.ceil(x).astype(jnp.int32) // 2 + i % 2 - i * 3,
    intpow=lambda x, y, i, m: i**2 + jnp.int32(2),
    trapz=lambda x, y, i, m: jax.scipy.integrate.trapezoid(y, x) if hasattr(jax.scipy, "integrate") else jnp.trapezoid(y, x),
    polyval=lambda x, y, i, m: jnp.polyval(jnp.array([1.0, 2.0, 3.0]), x),
    gammaln=lambda x, y, i, m: jax.scipy.special.gammaln(jnp.array([1.0, 2.0, 3.0])),
    nonzero=lambda x, y, i, m: jnp.nonzero(x > 0, size=3, fill_value=0)[0],
    wherei=lambda x, y, i, m: jnp.argwhere(x > 0, size=2)[:, 0],
    compress=lambda x, y, i, m: jnp.where(x > 0)[0] if False else jnp.count_nonzero(x > 0),
    unique=lambda x, y, i, m: jnp.ptp(x),
    logaddexp=lambda x, y, i, m: jnp.logaddexp(x, y),
    logsumexp=lambda x, y, i, m: jax.scipy.special.logsumexp(x),
    softmax=lambda x, y, i, m: jax.nn.softmax(x),
    nansum=lambda x, y, i, m: jnp.nansum(x) + jnp.nanmax(y),
    copysign=lambda x, y, i, m: jnp.copysign(y, x),
    ldexp=lambda x, y, i, m: lax.integer_pow(x, 3) + lax.square(y),
    sqdist=lambda x, y, i, m: jnp.sum((m[:, None] - m[None]) ** 2, -1),
    tri=lambda x, y, i, m: jnp.triu(jnp.outer(x, y)),
    kron=lambda x, y, i, m: jnp.convolve(x, y),
    apply=lambda x, y, i, m: jnp.apply_along_axis(lambda r: r * 2, 1, m),
    ixor=lambda x, y, i, m: jnp.unravel_index(i, (2, 2))[0] + jnp.ravel_multi_index((i % 2, i % 2), (2, 2), mode="clip"),
    sqrt_where=lambda x, y, i, m: jnp.sqrt(jnp.where(x > 0, x, 0.0)),
    checkpoint=lambda x, y, i, m: jax.checkpoint(lambda a: a * 2)(x),
    customjvp=lambda x, y, i, m: jax.nn.relu(x) + jax.nn.leaky_relu(x) + jax.nn.elu(x),
    stopgrad=lambda x, y, i, m: lax.stop_gradient(x),
    xlogy=lambda x, y, i, m: jax.scipy.special.xlogy(y, y) + jax.scipy.special.entr(y),
    eq=lambda x, y, i, m: (x == y) + (x != y) * 2 + (x <= y) + (x >= y) * 4,
    ravelsum=lambda x, y, i, m: sum(a * b for a, b in zip(x, y)),
    intersect=lambda x, y, i, m: jnp.isin(i, jnp.array([0, 2])),
)


def point(h, case, jit):
    f = CASES[case]
    x, y = h.reals("x", 3, lo=-4, hi=4), h.reals("y", 3, lo=-4, hi=4)
    m = [h.reals(f"m{k}_", 3, lo=-4, hi=4) for k in range(2)]
    i = [h.int_(f"i{k}", 0, 2) for k in range(3)]
    for s, c in zip([*x, *y, *m[0], *m[1], *i], [*X, *Y, *M[0], *M[1], *I]):
        h.assume(h.same(s, c))
    want = np.asarray(f(jnp.array(X), jnp.array(Y), jnp.array(I), jnp.array(M))) if not h.sym else np.asarray(WANT[case])
    a = [h.array(x), h.array(y), h.array(i, np.int32), h.array(m)]
    out = (jax.jit(f) if jit else f)(*a)
    h.check(tuple(h.shape(out)) == want.shape, "shape")
    for g, w in zip(np.ravel(h.S(out)), want.ravel()):
        if want.dtype == bool:
            h.check(h.same(g, bool(w)), "value")
        else:
            h.close(g, float(w), "value")


WANT = {}
for _k, _f in CASES.items():
    WANT[_k] = np.asarray(_f(jnp.array(X), jnp.array(Y), jnp.array(I), jnp.array(M)))


def instances(tier):
    out = []
    for c in CASES:
        out.append(dict(name="j_" + c, func=point, params=dict(case=c, jit=True)))
        out.append(dict(name="e_" + c, func=point, params=dict(case=c, jit=False)))
    return out
