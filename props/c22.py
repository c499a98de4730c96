"""C22 wind profiles."""
from symv.harness import scenario

P = 'C22'
KINDS = ('exponential', 'logarithmic', 'flat')


class Wind:
    """a profile with free parameters, and the speed law written down independently"""

    def __init__(self, S, kind, level=None, tag='', tws=None):
        self.S, self.kind = S, kind
        w = S.mod('inlet.winds')
        self.a = S.deg('twa', -180, 180)
        self.tws = S.real('tws', 0.5, 30, wide=(0, 200)) if tws is None else tws
        self.sog = S.real('sog', 0, 10, wide=(0, 100))
        self.H = S.real('H', 2, 30, wide=(1.5, 500))
        if kind == 'exponential':
            self.e = S.real('e', 0, 1, wide=(0, 5))
            self.lv = S.real('lv', -2, 0, wide=(-50, 1.4)) if level is None else level
            self.w = w.ExpWindProfile(self.a, self.tws, self.sog, exp_coeff=self.e, reference_measurment_height=self.H,
                                      reference_water_level_for_wind_profile=self.lv)
            self.lo, self.ref = self.lv, self.H + self.lv
        elif kind == 'logarithmic':
            self.r = S.real('r', 0.001, 1, wide=(0.000001, 1.4))
            self.w = w.LogWindProfile(self.a, self.tws, self.sog, roughness=self.r, reference_measurment_height=self.H)
            self.lo, self.ref = self.r, self.H
        else:
            self.w = w.FlatWindProfile(self.a, self.tws, self.sog)
            self.lo, self.ref = S.num(0), self.H

    def at(self, h):
        return self.w.get_true_wind_speed_at_h(h)

    def law(self, h):
        S = self.S
        if self.kind == 'exponential':
            return self.tws * pow((h - self.lv) / self.H, self.e)
        if self.kind == 'logarithmic':
            return self.tws * S.np.log(h / self.r) / S.np.log(self.H / self.r)
        return self.tws

    def dir(self):
        S = self.S
        return S.arr([S.cos(self.a), S.sin(self.a), 0])


K = [{'kind': k} for k in KINDS]


def height(S, w, name='h'):
    h = S.real(name, 0, 60, wide=(0, 1000))
    S.assume(h > w.lo)
    return h


@scenario(P, K)
def law_and_direction(S, kind):
    w = Wind(S, kind)
    h = height(S, w)
    v = w.at(h)
    S.eq('true wind', v, w.law(h) * w.dir())
    S.eq('horizontal', v[2], 0)


@scenario(P, K)
def configured_speed_at_reference_height(S, kind):
    w = Wind(S, kind)
    v = w.at(w.ref)
    S.eq('true wind', v, w.tws * w.dir())
    S.eq('speed', S.norm(v), w.tws)


@scenario(P, K)
def does_not_decrease_with_height(S, kind):
    w = Wind(S, kind)
    h, k = height(S, w), height(S, w, 'k')
    S.assume(h < k)
    if kind == 'exponential':
        S.assume(w.e > 0)
    d = w.dir()
    S.le('speed', S.dot(w.at(h), d), S.dot(w.at(k), d))


@scenario(P)
def zero_exponent_is_flat(S):
    w = S.mod('inlet.winds')
    a, t, s, h = S.deg('twa'), S.real('tws', 0.5, 30, wide=(0, 200)), S.real('sog', 0, 10, wide=(0, 100)), S.real('h', 0.01, 60, wide=(0.01, 1000))
    e = w.ExpWindProfile(a, t, s, exp_coeff=S.num(0), reference_measurment_height=S.pos('H', 30), reference_water_level_for_wind_profile=S.real('lv', -2, 0, wide=(-50, 1.4)))
    f = w.FlatWindProfile(a, t, s)
    S.eq('same wind', e.get_true_wind_speed_at_h(h), f.get_true_wind_speed_at_h(h))


@scenario(P, K)
def proportional_to_configured_speed(S, kind):
    k = S.real('k', 0.1, 5, wide=(0, 1000))
    w = Wind(S, kind)
    u = Wind(S, kind, tws=w.tws * k)
    h = height(S, w)
    S.eq('wind', u.at(h), w.at(h) * k)


@scenario(P, K)
def boat_speed_does_not_enter(S, kind):
    w = Wind(S, kind)
    h = height(S, w)
    v = w.at(h)
    w.w.V_yacht = S.real('other', 0, 10)
    S.eq('true wind', w.at(h), v)


@scenario(P)
def defaults(S):
    w = S.mod('inlet.winds')
    a, t, s, h = S.deg('twa'), S.real('tws', 0.5, 30, wide=(0, 200)), S.real('sog', 0, 10, wide=(0, 100)), S.real('h', 0.1, 60, wide=(0.1, 1000))
    d = S.arr([S.cos(a), S.sin(a), 0])
    S.eq('logarithmic', w.LogWindProfile(a, t, s).get_true_wind_speed_at_h(h), d * (t * S.np.log(h / S.num('0.05')) / S.np.log(S.num(10) / S.num('0.05'))))
    S.eq('exponential', w.ExpWindProfile(a, t, s).get_true_wind_speed_at_h(h), d * (t * pow(h / 10, S.num('0.1428'))))


@scenario(P, [{'kind': k, 'lv': l} for k in KINDS for l in (0, 1) if k == 'exponential' or l])
def configured_profile(S, kind, lv):
    """through the configuration: the selected profile with exactly the configured parameters"""
    C = S.mod('runner.container')
    a, t, s, H, e, r = S.deg('twa'), S.real('tws', 0.5, 30, wide=(0, 200)), S.real('sog', 0, 10, wide=(0, 100)), S.real('H', 2, 30, wide=(1.5, 500)), S.real('e', 0, 1, wide=(0, 5)), S.real('r', 0.001, 1, wide=(0.000001, 1.4))
    level = S.real('lv', -2, 0, wide=(-50, 1.4)) if lv else S.num(0)
    c = C.Conditions(alpha_true_wind_deg=a, tws_ref=t, SOG_yacht=s, wind_profile=kind, wind_exp_coeff=e, wind_reference_measurment_height=H,
                     roughness=r, reference_water_level_for_wind_profile=level)
    p = S.mod('runner.sail').Wind(c).profile
    h = S.real('h', 1.5, 60, wide=(1.5, 1000))
    law = {'exponential': lambda: t * pow((h - level) / H, e), 'logarithmic': lambda: t * S.np.log(h / r) / S.np.log(H / r), 'flat': lambda: t}[kind]()
    S.eq('true wind', p.get_true_wind_speed_at_h(h), S.arr([S.cos(a), S.sin(a), 0]) * law)
    S.eq('boat speed', p.V_yacht, s)


@scenario(P)
def reference_table(S):
    """the exponential profile reports the wind at its reference height"""
    w = Wind(S, 'exponential')
    cs = S.mod('rotations.csys_transformations').CSYS_transformations(S.num(0), S.deg('lee', -20, 20, wide=(-180, 180)), S.arr([0, 0, 0]))
    df = w.w.to_df_integral(cs)
    t = dict(zip(list(df['Quantity']), list(df['Value'])))
    v = w.law(w.H) * w.dir()
    ap = v + S.arr([w.sog, 0, 0])
    S.eq('heights', [t['Reference_measurement_height'], t['Reference_water_level_for_wind_profile']], [w.H, w.lv])
    S.eq('true wind', [t['TWS_at_reference_height_COG.' + q] for q in 'xyz'], v)
    S.eq('apparent wind', [t['V_app_infs_at_reference_height_COG.' + q] for q in 'xyz'], ap)
    S.eq('apparent length', t['V_app_infs_length_at_reference_height_COG'] ** 2, S.norm2(ap))
    an = t['AWA_infs_at_reference_height_COG_deg']
    S.eq('angle to the course', an, S.np.rad2deg(S.np.arctan2(ap[1], ap[0])))
    S.eq('angle to the centreline', t['AWA_infs_at_reference_height_COW_deg'], an - cs.leeway_deg)
