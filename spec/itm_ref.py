"""Reference semantics: the ITS Irregular Terrain Model, version 1.2.2, transcribed from references/itm.pdf
(G. A. Hufford, "The ITS Irregular Terrain Model, version 1.2.2: the Algorithm" and its Fortran listing).

Written as pure functions of the inputs, without records that remember earlier calls.  The analyser gives this
text abstract meaning with the same rules as the analysed source and compares the value graphs; it is evaluated
natively only to choose which input boxes to look at, never to decide.
Departures of the repository that its documentation states are kept: a non-positive knife-edge argument is
replaced by 0.00001, and the inverse normal deviate is rounded to four decimals.
"""
import math
import cmath


# ---------------------------------------------------------------- section 6: numerical functions
def aknfe(v2):
    if v2 <= 0:
        v2 = 1e-5
    if v2 < 5.76:
        return 6.02 + 9.11 * math.sqrt(v2) - 1.27 * v2
    return 12.953 + 4.343 * math.log(v2)


def fht(x, pk):
    if x >= 200:
        far = 0.05751 * x - 4.343 * math.log(x)
        if x >= 2000:
            return far
        w = 0.0134 * x * math.exp(-0.005 * x)
        return (1 - w) * far + w * (17.372 * math.log(x) - 117)
    w = -math.log(pk)
    if pk < 1e-5 or x * w * w * w > 5495:
        if x > 1:
            return 17.372 * math.log(x) - 117
        return -117
    return 2.5e-5 * x * x / pk - 8.686 * w - 15


def ahd(td):
    if td <= 10e3:
        return 133.4 + 0.332e-3 * td - 4.343 * math.log(td)
    if td <= 70e3:
        return 104.6 + 0.212e-3 * td - 1.086 * math.log(td)
    return 71.8 + 0.157e-3 * td + 2.171 * math.log(td)


H0A = (25, 80, 177, 395, 705)
H0B = (24, 45, 68, 80, 105)


def h0col(r, i):
    x = 1 / (r * r)
    return 4.343 * math.log((H0A[i] * x + H0B[i]) * x + 1)


def h0f(r, et):
    it = math.floor(et)
    if it <= 0:
        return h0col(r, 0)
    if it >= 5:
        return h0col(r, 4)
    q = et - it
    if q == 0:
        return h0col(r, it - 1)
    return (1 - q) * h0col(r, it - 1) + q * h0col(r, it)


def qerf(z):
    t = abs(z)
    if t >= 10:
        y = 0
    else:
        t = 4.317008 / (t + 4.317008)
        y = (math.exp(-0.5 * z * z) * 0.398942280 *
             t * (0.319381530 + t * (-0.356563782 + t * (1.781477937 + t * (-1.821255987 + t * 1.330274429)))))
    if z < 0:
        return 1 - y
    return y


def qerfi1(q):
    x = 0.5 - q
    t = max(0.5 - abs(x), 0.000001)
    t = math.sqrt(-2 * math.log(t))
    v = t - (2.515516698 + t * (0.802853 + t * 0.010328)) / (1 + t * (1.432788 + t * (0.189269 + t * 0.001308)))
    if x < 0:
        v = -v
    return round(v, 4)


# ---------------------------------------------------------------- section 3: preparatory
def qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    wn = fmhz / 47.7
    ens = en0
    if zsys != 0:
        ens = en0 * math.exp(-zsys / 9460)
    gme = 157e-9 * (1 - 0.04665 * math.exp(ens / 179.3))
    zq = complex(eps, 376.62 * sgm / wn)
    zgnd = cmath.sqrt(zq - 1)
    if ipol != 0:
        zgnd = zgnd / zq
    return wn, gme, ens, zgnd


def area_he(kst, hg, dh):
    if kst <= 0:
        return hg
    if kst == 1:
        q = 4
    else:
        q = 9
    if hg < 5:
        q = q * math.sin(0.3141593 * hg)
    return hg + (1 + q) * math.exp(-min(20, 2 * hg / max(1e-3, dh)))


def smooth_dl(he, gme):
    return math.sqrt(2 * he / gme)


def area_dl(he, dh, gme):
    return smooth_dl(he, gme) * math.exp(-0.07 * math.sqrt(dh / max(he, 5)))


def area_the(he, dl, dh, gme):
    q = smooth_dl(he, gme)
    return (0.65 * dh * (q / dl - 1) - 2 * he) / q


def levels(lvar, mdvar, klim, mdvarx, klimx):
    """requested climate and mode, level of change"""
    lvar = max(lvar, 3)
    if mdvarx >= 0:
        mdvar = mdvarx
        lvar = max(lvar, 4)
    if klimx > 0:
        klim = klimx
        lvar = 5
    return lvar, mdvar, klim


# ---------------------------------------------------------------- section 4: the propagation program
def make(wn, gme, ens, zgnd, hg, he, dl, the, dh, ptp):
    """everything that does not depend on the distance"""
    S = {}
    S['wn'], S['gme'], S['ens'], S['zgnd'] = wn, gme, ens, zgnd
    S['hg'], S['he'], S['dl'], S['the'], S['dh'], S['ptp'] = hg, he, dl, the, dh, ptp
    S['dls'] = [smooth_dl(he[0], gme), smooth_dl(he[1], gme)]
    S['dlsa'] = S['dls'][0] + S['dls'][1]
    S['dla'] = dl[0] + dl[1]
    S['tha'] = max(the[0] + the[1], -S['dla'] * gme)
    return S


def diff_setup(S):
    q = S['hg'][0] * S['hg'][1]
    qk = S['he'][0] * S['he'][1] - q
    if S['ptp']:
        q = q + 10
    S['wd1'] = math.sqrt(1 + qk / q)
    S['xd1'] = S['dla'] + S['tha'] / S['gme']
    q = (1 - 0.8 * math.exp(-S['dlsa'] / 50e3)) * S['dh']
    q = 0.78 * q * math.exp(-(q / 16) ** 0.25)
    S['afo'] = min(15, 2.171 * math.log(1 + 4.77e-4 * S['hg'][0] * S['hg'][1] * S['wn'] * q))
    S['qk'] = 1 / abs(S['zgnd'])
    aht = 20
    xht = 0
    for j in (0, 1):
        a = 0.5 * S['dl'][j] * S['dl'][j] / S['he'][j]
        wa = (a * S['wn']) ** (1 / 3)
        pk = S['qk'] / wa
        q = (1.607 - pk) * 151.0 * wa * S['dl'][j] / a
        xht = xht + q
        aht = aht + fht(q, pk)
    S['aht'] = aht
    S['xht'] = xht


def adiff(S, d):
    th = S['tha'] + d * S['gme']
    ds = d - S['dla']
    q = 0.0795775 * S['wn'] * ds * th * th
    ke = aknfe(q * S['dl'][0] / (ds + S['dl'][0])) + aknfe(q * S['dl'][1] / (ds + S['dl'][1]))
    a = ds / th
    wa = (a * S['wn']) ** (1 / 3)
    pk = S['qk'] / wa
    q = (1.607 - pk) * 151.0 * wa * th + S['xht']
    ar = 0.05751 * q - 4.343 * math.log(q) - S['aht']
    q = (S['wd1'] + S['xd1'] / d) * min((1 - 0.8 * math.exp(-d / 50e3)) * S['dh'] * S['wn'], 6283.2)
    wd = 25.1 / (25.1 + math.sqrt(q))
    return ar * wd + (1 - wd) * ke + S['afo']


def diff_line(S):
    diff_setup(S)
    S['xae'] = (S['wn'] * S['gme'] ** 2) ** (-1 / 3)
    d3 = max(S['dlsa'], 1.3787 * S['xae'] + S['dla'])
    d4 = d3 + 2.7574 * S['xae']
    a3 = adiff(S, d3)
    a4 = adiff(S, d4)
    S['emd'] = (a4 - a3) / (d4 - d3)
    S['aed'] = a3 - S['emd'] * d3
    S['wls'] = 0.021 / (0.021 + S['wn'] * S['dh'] / max(10e3, S['dlsa']))


def alos(d, wn, he, dh, zgnd, aed, emd, wls):
    q = (1 - 0.8 * math.exp(-d / 50e3)) * dh
    s = 0.78 * q * math.exp(-(q / 16) ** 0.25)
    h = he[0] + he[1]
    sps = h / math.sqrt(d * d + h * h)
    r = (sps - zgnd) / (sps + zgnd) * math.exp(-min(10, wn * s * sps))
    q = abs(r) ** 2
    if q < 0.25 or q < sps:
        r = r * math.sqrt(sps / q)
    ext = emd * d + aed
    q = wn * he[0] * he[1] * 2 / d
    if q > 1.57:
        q = 3.14 - 2.4649 / q
    two_ray = -4.343 * math.log(abs(complex(math.cos(q), -math.sin(q)) + r) ** 2)
    return (two_ray - ext) * wls + ext


def los_curve(S):
    """ael, ak1, ak2"""
    d2 = S['dlsa']
    a2 = S['aed'] + d2 * S['emd']
    d0 = 1.908 * S['wn'] * S['he'][0] * S['he'][1]
    if S['aed'] >= 0:
        d0 = min(d0, 0.5 * S['dla'])
        d1 = d0 + 0.25 * (S['dla'] - d0)
    else:
        d1 = max(-S['aed'] / S['emd'], 0.25 * S['dla'])
    a1 = alos(d1, S['wn'], S['he'], S['dh'], S['zgnd'], S['aed'], S['emd'], S['wls'])
    wq = False
    if d0 < d1:
        a0 = alos(d0, S['wn'], S['he'], S['dh'], S['zgnd'], S['aed'], S['emd'], S['wls'])
        q = math.log(d2 / d0)
        ak2 = max(0, ((d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0)) /
                  ((d2 - d0) * math.log(d1 / d0) - (d1 - d0) * q))
        wq = S['aed'] >= 0 or ak2 > 0
        if wq:
            ak1 = (a2 - a0 - ak2 * q) / (d2 - d0)
            if ak1 < 0:
                ak1 = 0
                ak2 = max(a2 - a0, 0) / q
                if ak2 == 0:
                    ak1 = S['emd']
    if not wq:
        ak1 = max(a2 - a1, 0) / (d2 - d1)
        ak2 = 0
        if ak1 == 0:
            ak1 = S['emd']
    ael = a2 - ak1 * d2 - ak2 * math.log(d2)
    return ael, ak1, ak2


def scat_consts(ens, he, dl):
    ad = dl[0] - dl[1]
    rr = he[1] / he[0]
    if ad < 0:
        ad = -ad
        rr = 1 / rr
    etq = (5.67e-6 * ens - 2.32e-3) * ens + 0.031
    return ad, rr, etq


def ascat(d, h0s, ad, rr, etq, wn, gme, ens, he, the, tha):
    """-> attenuation, remembered gain"""
    if h0s > 15:
        h0 = h0s
    else:
        th = the[0] + the[1] + d * gme
        r1 = 2 * wn * th * he[0]
        r2 = 2 * wn * th * he[1]
        if r1 < 0.2 and r2 < 0.2:
            return 1001, h0s
        ss = (d - ad) / (d + ad)
        q = min(max(0.1, rr / ss), 10)
        ss = max(0.1, ss)
        z0 = (d - ad) * (d + ad) * th * 0.25 / d
        et = (etq * math.exp(-min(1.7, z0 / 8.0e3) ** 6) + 1) * z0 / 1.7556e3
        ett = max(et, 1)
        h0 = (h0f(r1, ett) + h0f(r2, ett)) * 0.5
        h0 = h0 + min(h0, (1.38 - math.log(ett)) * math.log(ss) * math.log(q) * 0.49)
        h0 = max(h0, 0)
        if et < 1:
            h0 = et * h0 + (1 - et) * 4.343 * math.log(
                ((1 + 1.4142 / r1) * (1 + 1.4142 / r2)) ** 2 * (r1 + r2) / (r1 + r2 + 2.8284))
        if h0 > 15 and h0s >= 0:
            h0 = h0s
        h0s = h0
    th = tha + d * gme
    a = (ahd(th * d) + 4.343 * math.log(47.7 * wn * th ** 4) -
         0.1 * (ens - 301) * math.exp(-th * d / 40e3) + h0)
    return a, h0s


def scat_line(S):
    """ems, aes, dx"""
    ad, rr, etq = scat_consts(S['ens'], S['he'], S['dl'])
    d5 = S['dla'] + 200e3
    d6 = d5 + 200e3
    a6, h0s = ascat(d6, -15, ad, rr, etq, S['wn'], S['gme'], S['ens'], S['he'], S['the'], S['tha'])
    a5, h0s = ascat(d5, h0s, ad, rr, etq, S['wn'], S['gme'], S['ens'], S['he'], S['the'], S['tha'])
    if a5 < 1000:
        ems = (a6 - a5) / 200e3
        dx = max(S['dlsa'], S['dla'] + 0.3 * S['xae'] * math.log(47.7 * S['wn']))
        dx = max(dx, (a5 - S['aed'] - ems * d5) / (S['emd'] - ems))
        aes = (S['emd'] - ems) * dx + S['aed']
    else:
        ems = S['emd']
        aes = S['aed']
        dx = 10e6
    return ems, aes, dx


def aref_at(S, dist):
    """-> aref, (ael, ak1, ak2) or None, (ems, aes, dx) or None"""
    if dist < S['dlsa']:
        ael, ak1, ak2 = los_curve(S)
        return max(ael + ak1 * dist + ak2 * math.log(dist), 0), ael, ak1, ak2, 0, 0, 0
    ems, aes, dx = scat_line(S)
    if dist > dx:
        a = aes + ems * dist
    else:
        a = S['aed'] + S['emd'] * dist
    return max(a, 0), 0, 0, 0, ems, aes, dx


def warn(S, dist, kwx):
    """warning level: parameters, then distance"""
    wn, hg, dl, dls, the = S['wn'], S['hg'], S['dl'], S['dls'], S['the']
    if wn < 0.838 or wn > 210:
        kwx = max(kwx, 1)
    for j in (0, 1):
        if hg[j] < 1 or hg[j] > 1000:
            kwx = max(kwx, 1)
    for j in (0, 1):
        if abs(the[j]) > 200e-3 or dl[j] < 0.1 * dls[j] or dl[j] > 3 * dls[j]:
            kwx = max(kwx, 3)
    if (S['ens'] < 250 or S['ens'] > 400 or S['gme'] < 75e-9 or S['gme'] > 250e-9 or
            S['zgnd'].real < abs(S['zgnd'].imag) or wn < 0.419 or wn > 420):
        kwx = 4
    for j in (0, 1):
        if hg[j] < 0.5 or hg[j] > 3000:
            kwx = 4
    dmin = abs(S['he'][0] - S['he'][1]) / 200e-3
    if dist > 0:
        if dist > 1000e3:
            kwx = max(kwx, 1)
        if dist < dmin:
            kwx = max(kwx, 3)
        if dist < 1e3 or dist > 2000e3:
            kwx = 4
    return kwx


# ---------------------------------------------------------------- section 5: variability
#          bv1    bv2    xv1      xv2      xv3
VM = ((-9.67, 12.7, 144.9e3, 190.3e3, 133.8e3),
      (-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3),
      (1.26, 15.5, 262.6e3, 185.2e3, 99.8e3),
      (-9.21, 9.05, 84.1e3, 101.1e3, 98.6e3),
      (-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3),
      (-0.39, 2.86, 141.7e3, 315.9e3, 167.4e3),
      (3.15, 857.9, 2222.e3, 164.8e3, 116.3e3))
SM = ((2.13, 159.5, 762.2e3, 123.6e3, 94.5e3),
      (2.66, 7.67, 100.4e3, 172.5e3, 136.4e3),
      (6.11, 6.65, 138.2e3, 242.2e3, 178.6e3),
      (1.98, 13.11, 139.1e3, 132.7e3, 193.5e3),
      (2.68, 7.16, 93.7e3, 186.8e3, 133.5e3),
      (6.86, 10.38, 187.8e3, 169.6e3, 108.9e3),
      (8.51, 169.8, 609.8e3, 119.9e3, 106.6e3))
SP = ((2.11, 102.3, 636.9e3, 134.8e3, 95.6e3),
      (6.87, 15.53, 138.7e3, 143.7e3, 98.6e3),
      (10.08, 9.60, 165.3e3, 225.7e3, 129.7e3),
      (3.68, 159.3, 464.4e3, 93.1e3, 94.2e3),
      (4.75, 8.12, 93.2e3, 135.9e3, 113.4e3),
      (8.58, 13.97, 216.0e3, 152.0e3, 122.7e3),
      (8.43, 8.19, 136.2e3, 188.5e3, 122.9e3))
#        bsd1   bzd1   bfm1 bfm2  bfm3  bfp1  bfp2  bfp3
CF = ((1.224, 1.282, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0),
      (0.801, 2.161, 1.0, 0.0, 0.0, 0.93, 0.31, 2.00),
      (1.380, 1.282, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0),
      (1.000, 20., 1.0, 0.0, 0.0, 0.93, 0.19, 1.79),
      (1.224, 1.282, 0.92, 0.25, 1.77, 0.93, 0.31, 2.00),
      (1.518, 1.282, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0),
      (1.518, 1.282, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0))


def curv(c1, c2, x1, x2, x3, de):
    return (c1 + c2 / (1 + ((de - x2) / x3) ** 2)) * ((de / x1) ** 2) / (1 + (de / x1) ** 2)


def avar(zzt, zzl, zzc, aref, dist, he, wn, dh, klim, mdvar, kwx):
    """-> quantile, warning level, climate in force"""
    if klim <= 0 or klim > 7:
        klim = 5
        kwx = max(kwx, 2)
    cv1, cv2, yv1, yv2, yv3 = VM[klim - 1]
    csm1, csm2, ysm1, ysm2, ysm3 = SM[klim - 1]
    csp1, csp2, ysp1, ysp2, ysp3 = SP[klim - 1]
    csd1, zd, cfm1, cfm2, cfm3, cfp1, cfp2, cfp3 = CF[klim - 1]
    kdv = mdvar
    ws = kdv >= 20
    if ws:
        kdv = kdv - 20
    wl = kdv >= 10
    if wl:
        kdv = kdv - 10
    if kdv < 0 or kdv > 3:
        kdv = 0
        kwx = max(kwx, 2)
    q = math.log(0.133 * wn)
    gm = cfm1 + cfm2 / ((cfm3 * q) ** 2 + 1)
    gp = cfp1 + cfp2 / ((cfp3 * q) ** 2 + 1)
    dexa = math.sqrt(18e6 * he[0]) + math.sqrt(18e6 * he[1]) + (575.7e12 / wn) ** (1 / 3)
    if dist < dexa:
        de = 130e3 * dist / dexa
    else:
        de = 130e3 + dist - dexa
    vmd = curv(cv1, cv2, yv1, yv2, yv3, de)
    sgtm = curv(csm1, csm2, ysm1, ysm2, ysm3, de) * gm
    sgtp = curv(csp1, csp2, ysp1, ysp2, ysp3, de) * gp
    sgtd = sgtp * csd1
    tgtd = (sgtp - sgtd) * zd
    if wl:
        sgl = 0
    else:
        q = (1 - 0.8 * math.exp(-dist / 50e3)) * dh * wn
        sgl = 10 * q / (q + 13)
    if ws:
        vs0 = 0
    else:
        vs0 = (5 + 3 * math.exp(-de / 100e3)) ** 2
    zt = zzt
    zl = zzl
    zc = zzc
    if kdv == 0:
        zt = zc
        zl = zc
    elif kdv == 1:
        zl = zc
    elif kdv == 2:
        zl = zt
    if abs(zt) > 3.1 or abs(zl) > 3.1 or abs(zc) > 3.1:
        kwx = max(kwx, 1)
    if zt < 0:
        sgt = sgtm
    elif zt <= zd:
        sgt = sgtp
    else:
        sgt = sgtd + tgtd / zt
    vs = vs0 + (sgt * zt) ** 2 / (7.8 + zc ** 2) + (sgl * zl) ** 2 / (24 + zc ** 2)
    if kdv == 0:
        yr = 0
        sgc = math.sqrt(sgt ** 2 + sgl ** 2 + vs)
    elif kdv == 1:
        yr = sgt * zt
        sgc = math.sqrt(sgl ** 2 + vs)
    elif kdv == 2:
        yr = math.sqrt(sgt ** 2 + sgl ** 2) * zt
        sgc = math.sqrt(vs)
    else:
        yr = sgt * zt + sgl * zl
        sgc = math.sqrt(vs)
    a = aref - vmd - yr - sgc * zc
    if a < 0:
        a = a * (29 - a) / (29 - 10 * a)
    return a, kwx, klim


# ---------------------------------------------------------------- section 48: terrain
def hzns(pfl, dist, hg, gme):
    """-> angles, distances of the horizons"""
    n = pfl[0]
    xi = pfl[1]
    za = pfl[2] + hg[0]
    zb = pfl[n + 2] + hg[1]
    qc = 0.5 * gme
    the1 = (zb - za) / dist
    the0 = the1 - qc * dist
    the1 = -the1 - qc * dist
    dl0 = dist
    dl1 = dist
    blocked = False
    for i in range(1, n):
        sa = i * xi
        sb = dist - i * xi
        q = pfl[i + 2] - (qc * sa + the0) * sa - za
        if q > 0:
            the0 = the0 + q / sa
            dl0 = sa
            blocked = True
        if blocked:
            q = pfl[i + 2] - (qc * sb + the1) * sb - zb
            if q > 0:
                the1 = the1 + q / sb
                dl1 = sb
    return the0, the1, dl0, dl1


def zlsq1(z, x1, x2):
    """least-squares line over whole intervals of the window, at both profile ends"""
    n = z[0]
    ja = math.floor(max(x1 / z[1], 0))
    jb = n - math.floor(max(n - x2 / z[1], 0))
    if jb <= ja:
        ja = max(ja - 1, 0)
        jb = n - max(n - (jb + 1), 0)
    w = jb - ja
    c = 0.5 * w
    a = 0.5 * (z[ja + 2] + z[jb + 2])
    b = 0.5 * (z[jb + 2] - z[ja + 2]) * c
    for i in range(1, w):
        a = a + z[ja + i + 2]
        b = b + z[ja + i + 2] * (i - c)
    a = a / w
    b = b * 12 / ((w * w + 2) * w)
    mid = ja + c
    return a - b * mid, a + b * (n - mid)


def qtile(a, ir):
    """entry of rank ir counted from the largest (0 = largest)"""
    s = sorted(a)
    return s[len(s) - 1 - ir]


def dlthx(pfl, x1, x2):
    n0 = pfl[0]
    xa = x1 / pfl[1]
    xb = x2 / pfl[1]
    if xb - xa < 2:
        return 0
    ka = min(max(4, math.floor(0.1 * (xb - xa + 8))), 25)
    n = 10 * ka - 5
    kb = n - ka + 1
    step = (xb - xa) / (n - 1)
    k = math.floor(xa + 1)
    xa = xa - k
    s = [n - 1, 1]
    for j in range(n):
        while xa > 0 and k < n0:
            xa = xa - 1
            k = k + 1
        s.append(pfl[k + 2] + (pfl[k + 2] - pfl[k + 1]) * xa)
        xa = xa + step
    za, zb = zlsq1(s, 0, n - 1)
    res = [s[j + 2] - (za + (zb - za) / (n - 1) * j) for j in range(n)]
    return (qtile(res, ka - 1) - qtile(res, kb - 1)) / (1 - 0.8 * math.exp(-(x2 - x1) / 50e3))


def qlrpfl_setup(pfl, hg, gme, F):
    """-> dist, he, dl, the, dh ; F supplies hzns, zlsq1, dlthx"""
    fh, fz, fd = F
    n = pfl[0]
    dist = n * pfl[1]
    the0, the1, dl0, dl1 = fh(pfl, dist, hg, gme)
    xl0 = min(15 * hg[0], 0.1 * dl0)
    xl1 = dist - min(15 * hg[1], 0.1 * dl1)
    dh = fd(pfl, xl0, xl1)
    if dl0 + dl1 >= 1.5 * dist:
        za, zb = fz(pfl, xl0, xl1)
        he0 = hg[0] + max(pfl[2] - za, 0)
        he1 = hg[1] + max(pfl[n + 2] - zb, 0)
        dl0 = area_dl(he0, dh, gme)
        dl1 = area_dl(he1, dh, gme)
        q = dl0 + dl1
        if q <= dist:
            q = (dist / q) ** 2
            he0 = he0 * q
            he1 = he1 * q
            dl0 = area_dl(he0, dh, gme)
            dl1 = area_dl(he1, dh, gme)
        the0 = area_the(he0, dl0, dh, gme)
        the1 = area_the(he1, dl1, dh, gme)
    else:
        za, _ = fz(pfl, xl0, 0.9 * dl0)
        _, zb = fz(pfl, dist - 0.9 * dl1, xl1)
        he0 = hg[0] + max(pfl[2] - za, 0)
        he1 = hg[1] + max(pfl[n + 2] - zb, 0)
    return dist, [he0, he1], [dl0, dl1], [the0, the1], dh


PLAIN = (hzns, zlsq1, dlthx)


def ptp(pfl, hg, wn, gme, ens, zgnd, kwx, F):
    """point-to-point: set-up and reference attenuation"""
    dist, he, dl, the, dh = qlrpfl_setup(pfl, hg, gme, F)
    S = make(wn, gme, ens, zgnd, hg, he, dl, the, dh, True)
    diff_line(S)
    r = aref_at(S, dist)
    return S, dist, r[0], warn(S, dist, kwx)


def area(hg, kst, dh, wn, gme, ens, zgnd):
    he = [area_he(kst[0], hg[0], dh), area_he(kst[1], hg[1], dh)]
    dl = [area_dl(he[0], dh, gme), area_dl(he[1], dh, gme)]
    the = [area_the(he[0], dl[0], dh, gme), area_the(he[1], dl[1], dh, gme)]
    S = make(wn, gme, ens, zgnd, hg, he, dl, the, dh, False)
    diff_line(S)
    return S


def free_space(fmhz, km):
    return 32.45 + 20 * math.log10(fmhz) + 20 * math.log10(km)


def warn_distance(he, dist, kwx):
    """the part of the warning level that a further distance of a sweep can raise"""
    dmin = abs(he[0] - he[1]) / 200e-3
    if dist > 0:
        if dist > 1000e3:
            kwx = max(kwx, 1)
        if dist < dmin:
            kwx = max(kwx, 3)
        if dist < 1e3 or dist > 2000e3:
            kwx = 4
    return kwx
