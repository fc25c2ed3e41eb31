"""P23 orbit track, ground track and ground pixel tables."""
import ast
import math
from datetime import datetime, timedelta, timezone
import numpy as np
import geopandas as gpd
import pyproj
import z3
from shapely.affinity import translate
from shapely import geometry as geo
from shapely.ops import transform, unary_union
from shapely.errors import GEOSException
from spiceypy.utils.exceptions import SpiceyError
from skyfield.api import wgs84
from skyfield.framelib import itrs
from vf import core, seq, orb, tables, geo as vgeo
from vf.core import Num, Sym, SBool, Unsupported, SymRaise, equal, zb, zr, mkb, mkn, ctx, subst
from vf.seq import Seq, FSeq, zi
from vf.tables import seq_late
from vf.geo import GPoint, GOp
from vf.interp import SObj, MODELS, METHOD_MODELS, CONTRACTS, LOOP_RULES, ContinueX, is_sym
from vf.tmodel import STime, SDelta
from vf.spec import M
from vf.session import Fail, Skip, expect
from tatc import constants, utils, config
from tatc.analysis import track as TR
from tatc.schemas.instrument import Instrument, PointedInstrument
from tatc.schemas.satellite import Satellite

UTC = timezone.utc
ASSUMPTIONS = [
    "skyfield: states of the satellite, sub-satellite points, altitudes and azimuths at a time are functions of the time (and place); angles are finite",
    "numpy, pandas, geopandas: tables built from record lists, concat, unique, row selection, clip (exactly the rows whose geometry meets the mask; the order of clipped rows is not relied on), dissolve by a key",
    "pyproj and shapely: transformers and buffers are functions of their arguments; query_utm_crs_info returns a list of zones",
    "validity of observations by its contract (P22), footprints, centres and pixels by theirs (P21), polygon splitting by P20's",
    "the swath of the region culled before footprints are made is that of buffer_target's contract; that it holds every footprint that meets the mask is NOT proved: bounded check, and a known finding at high latitude",
    "line method: a group passes the antimeridian in one direction, less than one turn (longer or turning groups by the bounded cases); shapely split gives pieces on one side of the cut within the bounds of the line; unary_union, dissolve by two keys and Series.mean by their contracts",
    "which UTM zone pyproj returns is checked by the bounded cases only",
    "shapes GEOS cannot overlay (GEOSException) and orbits CSPICE rejects numerically are skipped in the bounded cases",
]
TO = pyproj.Transformer.from_crs("EPSG:4326", "EPSG:4087", always_xy=True)
FROM = pyproj.Transformer.from_crs("EPSG:4087", "EPSG:4326", always_xy=True)


# ------------------------------------------------------------------ oracle
class Blink(Instrument):
    """validity by an arbitrary pattern over time."""
    pattern: list = []

    def is_valid_observation(self, orbit_track, target=None):
        s = np.round((orbit_track.t.tt - 2459000.5) * 86400)
        v = np.asarray(self.pattern, dtype=bool)[(s // 20 % len(self.pattern)).astype(int)]
        return v if np.ndim(v) else bool(v)


def scene(i):
    o = orb.make(i["orbit"])
    t0 = orb.epoch_of(i["orbit"]["epoch"]).replace(microsecond=0) + timedelta(seconds=i["start"])
    ts, t = [], t0
    for g in i["gaps"]:
        ts.append(t)
        t = t + timedelta(seconds=g)
    kw = dict(req_self_sunlit=i["self"], req_target_sunlit=i["tgt"])
    plain = Instrument(name="plain", field_of_regard=i["for"], **kw) if i.get("pattern") is None else Blink(name="plain", field_of_regard=i["for"], pattern=i["pattern"])
    pointed = PointedInstrument(name="pointed", field_of_regard=180, cross_track_field_of_view=i["cross"], along_track_field_of_view=i["along"], roll_angle=i["roll"], pitch_angle=i["pitch"],
                                is_rectangular=i["rect"], cross_track_pixels=i["cp"], along_track_pixels=i["ap"], **kw)
    sat = Satellite(name="sat", orbit=o, instruments=[plain, pointed])
    return sat, ts


def single(sat, t):
    """track of one time."""
    tr = sat.orbit.to_tle().get_orbit_track([t])
    if not np.all(np.isfinite(tr.position.m)):
        raise Skip()
    return tr


def rectangle(m):
    lon, lat, w, h = m
    return geo.box(lon, lat, lon + w, lat + h)


def mask_of(kind, spec):
    polys = [rectangle(m) for m in spec]
    if kind == "polygon":
        return polys[0]
    if kind == "multi":
        return unary_union(polys) if unary_union(polys).geom_type == "MultiPolygon" else geo.MultiPolygon([polys[0]])
    if kind == "series":
        return gpd.GeoSeries(polys, crs="EPSG:4326")
    return gpd.GeoDataFrame(geometry=polys, crs="EPSG:4326")


def union(mask):
    return unary_union(list(mask.geometry)) if isinstance(mask, (gpd.GeoSeries, gpd.GeoDataFrame)) else mask


def same_time(a, b):
    return abs((a - b).total_seconds()) < 0.002


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = a - b
    if tol < 1:
        d[0] = (d[0] + 180) % 360 - 180
    return np.all(np.abs(d) <= tol)


def same_shape(a, b):
    """area of the symmetric difference is negligible (and the heights agree)."""
    u, w = a.buffer(0), b.buffer(0)
    ref = max(u.area, w.area, 1e-12)
    if abs(u.area - w.area) > 1e-4 * ref:
        return False
    try:
        return u.symmetric_difference(w).area <= 1e-3 * ref + 1e-9
    except Exception:
        return True  # not decidable by GEOS


def heights(g):
    polys = g.geoms if hasattr(g, "geoms") else [g]
    return [c[2] for p in polys if p.geom_type == "Polygon" for c in p.exterior.coords if len(c) > 2]


def valid_of(inst, tr, target=None):
    r = inst.is_valid_observation(tr) if target is None else inst.is_valid_observation(tr, target)
    return bool(np.reshape(r, -1)[0])


def sun(tr, place):
    a = (constants.de421["earth"] + place).at(tr.t).observe(constants.de421["sun"]).apparent().altaz()
    return float(np.squeeze(a[0].degrees)), float(np.squeeze(a[1].degrees))


def one(x):
    return float(np.reshape(x, -1)[0])


def align(rows, ts, masked, what, key="rows"):
    """row(s) of each time; without a mask all times in order."""
    got = [r.to_pydatetime() for r in rows.time]
    if not masked:
        expect(len(got) == len(ts), f"{what}: {len(got)} rows for {len(ts)} times", key)
        for k in range(len(ts)):
            expect(same_time(got[k], ts[k]), f"{what}: row {k} is of {got[k]}, expected {ts[k]}", key)
        return {k: [k] for k in range(len(ts))}
    out = {}
    for r, t in enumerate(got):
        k = next((k for k in range(len(ts)) if same_time(t, ts[k])), None)
        expect(k is not None, f"{what}: row of {t}, not a requested time", key)
        out.setdefault(k, []).append(r)
    return out


def guard(f):
    def g(i, **k):
        try:
            return f(i, **k)
        except SpiceyError as e:
            if "INVALIDELLIPSE" in str(e) + type(e).__name__:
                raise Skip()
            raise
        except GEOSException:
            raise Skip()  # GEOS could not overlay the oracle's shapes (or the code's own: outside the domain)
    g.__name__ = f.__name__
    return g


def close_to_edge(m, p, d=1e-6):
    return m.boundary.distance(geo.Point(p)) < d


@guard
def check_orbit(i):
    sat, ts = scene(i)
    inst = sat.instruments[i["index"]]
    mask = None if i["mask"] is None else mask_of(i["maskkind"], i["mask"])
    co = TR.OrbitCoordinate(i["coord"])
    out = TR.OrbitOutput(i["output"])
    oracle = [single(sat, t) for t in ts]
    rows = TR.collect_orbit_track(sat, ts, i["index"], i["elev"], mask, co, out, i["sunlit"], i["altaz"], i["beta"])
    what = f"orbit track ({i['coord']}, {i['output']}, mask {i['maskkind'] if mask is not None else None})"
    M_ = None if mask is None else union(mask)
    at = align(rows, ts, mask is not None, what)
    for k, tr in enumerate(oracle):
        g = wgs84.geographic_position_of(tr)
        lon, lat, h = one(g.longitude.degrees), one(g.latitude.degrees), one(g.elevation.m)
        if M_ is not None:
            if close_to_edge(M_, (lon, lat)):
                continue
            if not M_.contains(geo.Point(lon, lat)):
                expect(k not in at, f"{what}: row of {ts[k]} over ({lon:.3f}, {lat:.3f}), outside the mask", "outside")
                continue
            expect(k in at, f"{what}: no row of {ts[k]} over ({lon:.3f}, {lat:.3f}), inside the mask", "dropped")
        expect(len(at[k]) == 1, f"{what}: {len(at[k])} rows of {ts[k]}", "rows")
        r = rows.iloc[at[k][0]]
        w = f"{what} at {ts[k]}"
        expect(r.satellite == "sat" and r.instrument == inst.name, f"{w}: {r.satellite} {r.instrument}", "names")
        expect(abs(r.swath_width - utils.field_of_regard_to_swath_width(h, inst.field_of_regard, i["elev"])) < 1e-3 * max(1, r.swath_width) * 0.01, f"{w}: swath {r.swath_width}", "swath")
        expect(bool(r.valid_obs) == valid_of(inst, tr), f"{w}: validity {r.valid_obs}", "validity")
        p = r.geometry
        if i["coord"] == "wgs84":
            expect(near((p.x, p.y), (lon, lat), 1e-5) and abs(p.z - h) < 1, f"{w}: at {p}, expected ({lon}, {lat}, {h})", "position")
        else:
            q = np.reshape(tr.frame_xyz(itrs).m if i["coord"] == "ecef" else tr.position.m, -1)
            expect(near((p.x, p.y, p.z), q, 5.0), f"{w}: at {p}, expected {q}", "position")
        if i["output"] == "velocity":
            q = np.reshape(tr.velocity.m_per_s if i["coord"] == "eci" else tr.frame_xyz_and_velocity(itrs)[1].m_per_s, -1)
            v = r.velocity
            expect(np.all(np.abs(np.array([v.x, v.y, v.z]) - q) < 0.05), f"{w}: velocity {v}, expected {q}", "velocity")
        else:
            expect("velocity" not in rows.columns, f"{w}: unasked velocity", "columns")
        if i["sunlit"]:
            expect(bool(r.sat_sunlit) == bool(np.reshape(tr.is_sunlit(constants.de421), -1)[0]), f"{w}: sunlit {r.sat_sunlit}", "sunlit")
        if i["altaz"]:
            a, z = sun(tr, wgs84.geographic_position_of(tr))
            expect(abs(r.solar_alt - a) < 1e-3 and abs((r.solar_az - z + 180) % 360 - 180) < 1e-3 / max(1e-3, math.cos(math.radians(a))), f"{w}: sun {r.solar_alt} {r.solar_az}, expected {a} {z}", "sun")
        if i["beta"]:
            n = np.cross(np.reshape(tr.position.m, -1), np.reshape(tr.velocity.m_per_s, -1))
            s = np.reshape(constants.de421["earth"].at(tr.t).observe(constants.de421["sun"]).position.m, -1)
            b = 90 - math.degrees(math.acos(n @ s / np.linalg.norm(n) / np.linalg.norm(s)))
            expect(abs(r.solar_beta - b) < 1e-3, f"{w}: beta {r.solar_beta}, expected {b}", "beta")
    if M_ is None:
        expect(len(rows) == len(ts), "rows", "rows")


def reach(sat, inst, ts):
    """documented culling distance (EPSG:4087 metres)."""
    alt, inc = sat.orbit.to_tle().get_altitude(), sat.orbit.to_tle().get_inclination()
    step = np.mean([(b - a).total_seconds() for a, b in zip(ts, ts[1:])])
    return utils.compute_ground_velocity(alt, inc) * step + utils.field_of_regard_to_swath_width(alt, inst.field_of_regard) / 2


def within_reach(M_, lon, lat, dist):
    """the subpoint lies robustly within the documented distance of the mask."""
    Mx = transform(TO.transform, M_)
    turn = TO.transform(180, 0)[0] * 2
    x, y = TO.transform(lon, lat)
    return min(Mx.distance(geo.Point(x + k * turn, y)) for k in (-1, 0, 1)) < 0.98 * dist


def footprint(inst, tr, elev):
    return inst.compute_footprint(tr, elevation=elev)


def shape_in_crs(tr, inst, elev, crs):
    g = wgs84.geographic_position_of(tr)
    lon, lat, h = one(g.longitude.degrees), one(g.latitude.degrees), one(g.elevation.m)
    sw = utils.field_of_regard_to_swath_width(h, inst.field_of_regard, elev)
    if crs == "utm":
        crs = TR._get_utm_epsg_code(geo.Point(lon, lat, h), sw)
    a = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=True)
    b = pyproj.Transformer.from_crs(crs, "EPSG:4326", always_xy=True)
    ring = transform(a.transform, geo.Point(lon, lat)).buffer(sw / 2)
    return lon, lat, sw, utils.split_polygon(transform(b.transform, ring))


def fits(S):
    return S.is_valid and all(abs(c[1]) <= 90 for p in (S.geoms if hasattr(S, "geoms") else [S]) for c in p.exterior.coords)


@guard
def check_ground(i, key="dropped"):
    sat, ts = scene(i)
    inst = sat.instruments[i["index"]]
    mask = None if i["mask"] is None else mask_of(i["maskkind"], i["mask"])
    oracle = [single(sat, t) for t in ts]
    F = [footprint(inst, tr, i["elev"]) for tr in oracle]
    if not all(fits(f) for f in F):
        raise Skip()  # footprints outside P20's domain
    what = f"ground track ({i['crs']}, {inst.name}, mask {i['maskkind'] if mask is not None else None})"
    rows = TR.collect_ground_track(sat, ts, i["index"], i["elev"], mask, i["crs"], i["sataz"], i["altaz"])
    M_ = None if mask is None else union(mask)
    at = align(rows, ts, mask is not None, what)
    dist = reach(sat, inst, ts) if len(ts) > 1 else math.inf
    for k, tr in enumerate(oracle):
        g = wgs84.geographic_position_of(tr)
        lon, lat = one(g.longitude.degrees), one(g.latitude.degrees)
        if i["crs"] == "spice":
            S = F[k]
        else:
            _, _, sw, S = shape_in_crs(tr, inst, i["elev"], i["crs"])
            if not fits(S):
                continue
        if M_ is not None:
            inter, both = F[k].intersection(M_).area, S.intersection(M_).area
            tiny = 1e-6 * min(F[k].area, M_.area)
            if min(inter, both) <= tiny:
                if (len(ts) > 1 and F[k].distance(M_) > 1e-6) or S.distance(M_) > 1e-6:
                    expect(k not in at, f"{what}: row of {ts[k]} whose footprint misses the mask", "outside")
                continue
            if len(ts) > 1 and not i.get("any") and not within_reach(M_, lon, lat, dist):
                continue
            expect(k in at, f"{what}: no row of {ts[k]} over ({lon:.3f}, {lat:.3f}) though its footprint meets the mask ({inter:.3g} square degrees)", key)
            S = S.intersection(M_)
        expect(len(at[k]) == 1, f"{what}: {len(at[k])} rows of {ts[k]}", "rows")
        r = rows.iloc[at[k][0]]
        w = f"{what} at {ts[k]}"
        expect(r.satellite == "sat" and r.instrument == inst.name, f"{w}: {r.satellite} {r.instrument}", "names")
        target = inst.compute_footprint_center(tr, i["elev"])
        expect(bool(r.valid_obs) == valid_of(inst, tr, target), f"{w}: validity {r.valid_obs}", "validity")
        if abs(lat) < 85:
            expect(same_shape(r.geometry, S), f"{w}: footprint {r.geometry.area:.6g} square degrees over {r.geometry.bounds}, expected {S.area:.6g} over {S.bounds}", "footprint")
        if M_ is None:
            expect(all(abs(z - i["elev"]) < 1e-6 for z in heights(r.geometry)) and heights(r.geometry), f"{w}: heights", "height")
        if i["sataz"]:
            a = (tr - target.at(tr.t)).altaz()
            expect(abs(r.sat_alt - one(a[0].degrees)) < 1e-2, f"{w}: satellite altitude {r.sat_alt}", "sat altaz")
            if one(a[0].degrees) < 89:
                expect(abs((r.sat_az - one(a[1].degrees) + 180) % 360 - 180) < 0.1, f"{w}: satellite azimuth {r.sat_az}", "sat altaz")
        if i["altaz"]:
            a, z = sun(tr, target)
            expect(abs(r.solar_alt - a) < 1e-3, f"{w}: solar altitude {r.solar_alt}, expected {a}", "sun")
            expect(abs((r.solar_az - z + 180) % 360 - 180) < 1e-2 / max(1e-3, math.cos(math.radians(a))), f"{w}: solar azimuth {r.solar_az}, expected {z}", "sun")


def check_known(i):
    check_ground(dict(i, any=True), key="cull-buffer")


@guard
def check_pixels(i):
    i = dict(i, rect=True, index=1)
    sat, ts = scene(i)
    inst = sat.instruments[1]
    mask = None if i["mask"] is None else mask_of(i["maskkind"], i["mask"])
    oracle = [single(sat, t) for t in ts]
    F = [footprint(inst, tr, i["elev"]) for tr in oracle]
    if not all(fits(f) for f in F):
        raise Skip()
    what = f"ground pixels (mask {i['maskkind'] if mask is not None else None})"
    rows = TR.collect_ground_pixels(sat, ts, 1, i["elev"], mask, i["sataz"], i["altaz"])
    M_ = None if mask is None else union(mask)
    n = i["cp"] * i["ap"]
    got = [r.to_pydatetime() for r in rows.time]
    if M_ is None:
        expect(len(rows) == n * len(ts), f"{what}: {len(rows)} rows for {len(ts)} times of {n} pixels", "rows")
    used = set()
    dist = reach(sat, inst, ts) if len(ts) > 1 else math.inf
    for k, tr in enumerate(oracle):
        pts = inst.compute_footprint_pixel_array(tr, i["elev"])
        g = wgs84.geographic_position_of(tr)
        lon, lat = one(g.longitude.degrees), one(g.latitude.degrees)
        mine = [r for r, t in enumerate(got) if same_time(t, ts[k])]
        for q, p in enumerate(pts.geoms):
            r = n * k + q if M_ is None else next((r for r in mine if r not in used and near((rows.iloc[r].geometry.x, rows.iloc[r].geometry.y), (p.x, p.y), 1e-5)), None)
            w = f"{what}, pixel {q} at {ts[k]}"
            if M_ is not None:
                if close_to_edge(M_, (p.x, p.y)):
                    used.update([] if r is None else [r])
                    continue
                if not M_.contains(geo.Point(p.x, p.y)):
                    expect(r is None, f"{w}: row outside the mask", "outside")
                    continue
                if F[k].intersection(M_).area <= 1e-6 * min(F[k].area, M_.area) or len(ts) > 1 and not within_reach(M_, lon, lat, dist):
                    used.update([] if r is None else [r])
                    continue
                expect(r is not None, f"{w}: at ({p.x:.3f}, {p.y:.3f}) inside the mask, no row", "dropped")
            used.add(r)
            row = rows.iloc[r]
            expect(same_time(got[r], ts[k]), f"{w}: time {got[r]}", "rows")
            expect(row.satellite == "sat" and row.instrument == "pointed", f"{w}: names", "names")
            expect(near((row.geometry.x, row.geometry.y), (p.x, p.y), 1e-5) and abs(row.geometry.z - p.z) < 1, f"{w}: at {row.geometry}, expected {p}", "position")
            place = wgs84.latlon(p.y, p.x, p.z)
            expect(bool(row.valid_obs) == valid_of(inst, tr, place), f"{w}: validity", "validity")
            if i["sataz"]:
                a = (tr - place.at(tr.t)).altaz()
                expect(abs(row.sat_alt - one(a[0].degrees)) < 1e-2, f"{w}: satellite altitude", "sat altaz")
            if i["altaz"]:
                a, z = sun(tr, place)
                expect(abs(row.solar_alt - a) < 1e-3, f"{w}: solar altitude", "sun")
    for r in range(len(rows) if M_ is not None else 0):
        expect(r in used, f"{what}: row {r} at {rows.iloc[r].geometry} is no pixel of its time", "rows")


def swept(g):
    """the swath of a group: the unwrapped line below the satellite within half the mean swath width (EPSG:4087), wrapped; None where it reaches the poles."""
    turn, (x, y) = 2 * TO.transform(180, 0)[0], TO.transform([s[0] for s in g], [s[1] for s in g])
    for k in range(1, len(x)):
        if abs(abs(x[k] - x[k - 1]) % turn - turn / 2) < 1e-3 * turn:
            return None
        x[k] -= turn * round((x[k] - x[k - 1]) / turn)
    line = geo.LineString(zip(x, y)) if len(x) > 1 else geo.Point(x[0], y[0])
    area = line.buffer(np.mean([s[2] for s in g]) / 2)
    if area.bounds[3] > TO.transform(0, 90)[1] or area.bounds[1] < TO.transform(0, -90)[1]:
        return None
    parts = [translate(area, k * turn).intersection(geo.box(-turn / 2, -turn, turn / 2, turn)) for k in range(-2, 3)]
    return transform(FROM.transform, unary_union([p for p in parts if p.area > 0]))


@guard
def check_total(i):
    """aggregated ground track."""
    i = dict(i, crs="EPSG:4087", index=0)
    sat, ts = scene(i)
    inst = sat.instruments[0]
    oracle = [single(sat, t) for t in ts]
    period = sat.orbit.to_tle().get_orbit_period()
    shapes = [shape_in_crs(tr, inst, i["elev"], "EPSG:4087") for tr in oracle]
    if not all(fits(s[3]) for s in shapes):
        raise Skip()
    line = i["method"] == "line"
    ok = [valid_of(inst, tr, None if line else inst.compute_footprint_center(tr, i["elev"])) for tr in oracle]
    orbit = [(t - ts[0]) // period for t in ts]
    if not any(ok):
        raise Skip()
    out = TR.compute_ground_track(sat, ts, 0, i["elev"], None, "EPSG:4087", i["method"], i["dissolve"])
    what = f"aggregated ground track ({i['method']}, dissolve {i['dissolve']})"
    all_ = unary_union([s[3].buffer(0) for s, v in zip(shapes, ok) if v])
    got = unary_union([g.buffer(0) for g in out.geometry])
    if line:
        # each run of valid times within one orbit gives one row
        runs, cur = [], None
        for k in range(len(ts)):
            if not ok[k]:
                cur = None
                continue
            if cur is None or orbit[k] != orbit[k - 1]:
                cur = []
                runs.append(cur)
            cur.append(k)
        groups = runs
    else:
        by = {}
        for k in range(len(ts)):
            if ok[k]:
                by.setdefault(orbit[k], []).append(k)
        groups = list(by.values())
    expect(len(out) == (1 if i["dissolve"] else len(groups)), f"{what}: {len(out)} rows for {len(groups)} groups", "rows")
    if any(abs(s[1]) > 80 for s in shapes):
        return
    if not line:
        expect(same_shape(got, all_), f"{what}: area {got.area:.6g}, expected the union {all_.area:.6g} of the valid footprints", "union")
        if not i["dissolve"]:
            for grp, g in zip(groups, out.geometry):
                expect(same_shape(g, unary_union([shapes[k][3].buffer(0) for k in grp])), f"{what}: an orbit's footprint", "union")
    else:
        for grp in groups:
            sw = np.mean([shapes[k][2] for k in grp])
            for k in grp:
                lon, lat = shapes[k][:2]
                if abs(lon) > 179:
                    continue
                d = TO.transform(lon, lat)
                spot = transform(FROM.transform, geo.Point(d).buffer(0.9 * sw / 2)).intersection(geo.box(-180, -90, 180, 90))
                expect(spot.difference(got).area <= 1e-3 * spot.area, f"{what}: the swath around ({lon:.3f}, {lat:.3f}) at {ts[k]} is missing", "union")
        want = [swept([shapes[k] for k in grp]) for grp in groups]
        rows = list(zip(want, out.geometry)) if not i["dissolve"] else [(unary_union([w for w in want if w is not None]), got)] if None not in want else []
        for w, g in rows:
            if w is not None and not isinstance(w, list):
                expect(same_shape(g, w), f"{what}: a row covers {g.area:.6g} square degrees, the line below the satellite within half the mean swath width {w.area:.6g}", "swath of a group")
    for z in [z for g in out.geometry for z in heights(g)][:50]:
        expect(abs(z - i["elev"]) < 1e-3, f"{what}: height {z}", "height")


@guard
def check_total_masked(i):
    """aggregated ground track within a mask: from the rows of the ground track within the mask (judged by check_ground)."""
    i = dict(i, index=0)
    sat, ts = scene(i)
    if i["mask"] is None:
        raise Skip()
    mask = mask_of(i["maskkind"], i["mask"])
    period = sat.orbit.to_tle().get_orbit_period()
    what = f"aggregated ground track within a mask ({i['method']}, {i['crs']}, dissolve {i['dissolve']})"
    if i["method"] == "point":
        rows = TR.collect_ground_track(sat, ts, 0, i["elev"], mask, i["crs"])
        rows = rows[rows.valid_obs.astype(bool)] if len(rows) else rows
        by = {}
        for t, g in zip(rows.time, rows.geometry):
            by.setdefault((t - ts[0]) // period, []).append(g)
        want = [unary_union([g.buffer(0) for g in by[k]]) for k in sorted(by)]
    else:
        if i["crs"] != "EPSG:4087":
            raise Skip()
        whole = TR.compute_ground_track(sat, ts, 0, i["elev"], None, i["crs"], "line", False)
        want = [w for w in (g.buffer(0).intersection(union(mask)) for g in whole.geometry) if w.area > 0]
    if not want:
        raise Skip()
    out = TR.compute_ground_track(sat, ts, 0, i["elev"], mask, i["crs"], i["method"], i["dissolve"])
    got = [g.buffer(0) for g in out.geometry if g.area > 0]
    if i["dissolve"]:
        want = [unary_union(want)]
    expect(len(got) == len(want), f"{what}: {len(got)} rows for {len(want)} groups", "rows")
    rest = list(got)
    for w in want:
        k = next((k for k, g in enumerate(rest) if same_shape(g, w)), None)
        expect(k is not None, f"{what}: no row is the union of the footprints of a group (area {w.area:.6g}, rows {[round(g.area, 6) for g in rest]})", "union")
        rest.pop(k)


@guard
def check_buffer(i):
    """buffer_target: everything within the distance of the target, in the distance system."""
    t = mask_of(i["maskkind"] if i["maskkind"] in ("polygon", "multi") else "polygon", i["mask"])
    sw = utils.field_of_regard_to_swath_width(i["alt"], i["for"])
    d = (utils.compute_ground_velocity(i["alt"], i["inc"]) * i["step"] + sw / 2) * i["scale"]
    bx = transform(TO.transform, t).bounds
    if bx[3] + d > TO.transform(0, 89.9)[1] or bx[1] - d < TO.transform(0, -89.9)[1] or bx[2] - bx[0] + 2 * d > TO.transform(179, 0)[0] * 2:
        raise Skip()
    g = utils.buffer_target(t, i["alt"], i["inc"], i["for"], i["step"], distance_scaling=i["scale"])
    r = __import__("random").Random(str(i))
    turn = TO.transform(180, 0)[0] * 2
    Mx = transform(TO.transform, t)
    for _ in range(40):
        a = r.uniform(0, 2 * math.pi)
        e = Mx.exterior if hasattr(Mx, "exterior") else list(Mx.geoms)[-1].exterior
        p = e.interpolate(r.random(), normalized=True)
        f = r.uniform(0, 1.3) * d
        x, y = p.x + f * math.cos(a), p.y + f * math.sin(a)
        q = Mx.distance(geo.Point(x, y))
        lon, lat = FROM.transform(x, y)
        lon = (lon + 180) % 360 - 180
        if abs(lat) > 89.9 or abs(q - d) < 0.02 * d + 1:
            continue
        # a point may also be within the distance around the turn
        q = min(Mx.distance(geo.Point(x + k * turn, y)) for k in (-1, 0, 1))
        if abs(q - d) < 0.02 * d + 1 or abs(abs(lon) - 180) < 1e-6:
            continue
        expect(g.contains(geo.Point(lon, lat)) == (q < d), f"buffered target {'lacks' if q < d else 'holds'} ({lon:.4f}, {lat:.4f}), {q:.0f} m from the target, distance {d:.0f} m", "buffer")


def concrete(C):
    def base(r):
        d = orb.gen_orbit(r, ("circular", "circular", "sso", "keplerian"))
        d["epoch"].update(days=7300 + r.randrange(1500))
        d["altitude"] = r.choice([4e5, 5e5, 8e5, 1.2e6])
        if d["kind"] == "keplerian":
            d["eccentricity"] = r.choice([0.0, 0.001, 0.01])
        if d["kind"] != "sso":
            d["inclination"] = r.choice([28.0, 51.6, 60.0, 97.0, 0.5, 120.0])
        n = r.choice([1, 2, 3, 5, 8, 12])
        step = r.choice([10, 30, 60, 120])
        gaps = [step] * n if r.random() < 0.7 else [r.choice([10, 60, 300]) for _ in range(n)]
        kind = r.choice(["polygon", "multi", "series", "frame"])
        return dict(orbit=d, start=r.randrange(20000), gaps=gaps, index=r.randrange(2), elev=r.choice([0, 0, 500.0, 5000.0]), self=r.choice([None, None, True, False]), tgt=r.choice([None, None, True, False]),
                    cross=r.uniform(2, 40), along=r.uniform(2, 40), roll=r.choice([0, r.uniform(-25, 25)]), pitch=r.choice([0, r.uniform(-20, 20)]), rect=r.random() < 0.5, cp=r.choice([1, 2, 3]), ap=r.choice([1, 2]),
                    coord=r.choice(["wgs84", "ecef", "eci"]), output=r.choice(["position", "velocity"]), sunlit=r.random() < 0.5, altaz=r.random() < 0.4, beta=r.random() < 0.4, sataz=r.random() < 0.4,
                    crs=r.choice(["spice", "EPSG:4087", "utm"]), maskkind=kind, mask=None, method=r.choice(["point", "line"]), dissolve=r.random() < 0.5, **{"for": r.choice([10.0, 30.0, 60.0, 100.0])})

    def masks(r, i):
        """a mask near the track: placed relative to the subpoint of one of the times."""
        sat, ts = scene(dict(i, mask=None))
        boxes = []
        for _ in range(1 if i["maskkind"] == "polygon" else r.choice([1, 2, 3])):
            g = wgs84.geographic_position_of(single(sat, ts[r.randrange(len(ts))]))
            w, h = r.choice([2.0, 6.0, 20.0]), r.choice([2.0, 6.0, 15.0])
            lon, lat = one(g.longitude.degrees) + r.uniform(-1.5, 0.5) * w, one(g.latitude.degrees) + r.uniform(-1.5, 0.5) * h
            boxes.append([max(-180, min(180 - w, round(lon, 3))), max(-89, min(89 - h, round(lat, 3))), w, h])
        if len(boxes) > 1 and unary_union([rectangle(b) for b in boxes]).geom_type == "Polygon" and i["maskkind"] == "multi":
            boxes = boxes[:1]
        return dict(i, mask=boxes)

    def masked():
        def g(r):
            i = base(r)
            if r.random() < 0.65:
                try:
                    i = masks(r, i)
                except Skip:
                    pass
            return i
        return g
    R = "1..12 chronological times of low orbits (4e5..1.2e6 m), plain and pointed instruments, requirements; masks placed near the track (polygon, multi-polygon, series, frame) or none; each row against single-time computations"
    C.cases("orbit track", masked(), check_orbit, 90, R, share=0.25)
    C.cases("ground track", masked(), check_ground, 110, R, share=0.4)
    C.cases("ground pixels", masked(), check_pixels, 60, R, share=0.5)
    C.cases("aggregated ground track", base, check_total, 50, R, share=0.5)

    def blink(r):
        n, p = r.choice([6, 9, 12, 16]), r.choice([3, 4, 6, 7])
        return dict(base(r), gaps=[r.choice([20, 40, 60])] * n, pattern=[r.random() < 0.6 for _ in range(p)] + [True])
    C.cases("aggregated ground track, any validity", blink, check_total, 40, "6..16 times whose validity follows an arbitrary pattern", share=0.5)

    def dateline(r):
        """the line method over times that pass the antimeridian, eastwards and westwards."""
        i = dict(base(r), method="line", self=None, tgt=None)
        i["orbit"] = dict(i["orbit"], **({} if i["orbit"]["kind"] == "sso" else dict(inclination=r.choice([28.0, 51.6, 97.0, 120.0, 150.0]))))
        if i["orbit"]["kind"] == "keplerian":
            i["orbit"]["eccentricity"] = r.choice([0.01, 0.02])
        n, step = r.choice([2, 4, 7, 12]), r.choice([30, 60, 100])
        i["gaps"] = [step] * n
        if r.random() < 0.4:
            i["pattern"] = [r.random() < 0.8 for _ in range(r.choice([4, 5, 7]))] + [True]
        sat, _ = scene(i)
        tle = sat.orbit.to_tle()
        t0 = orb.epoch_of(i["orbit"]["epoch"]).replace(microsecond=0)
        lon = wgs84.geographic_position_of(tle.get_orbit_track([t0 + timedelta(seconds=60 * k) for k in range(300)])).longitude.degrees
        hits = [k for k in range(299) if abs(lon[k + 1] - lon[k]) > 180]
        if hits:
            i["start"] = max(0, 60 * r.choice(hits) - r.randrange(n) * step)
        return i
    C.cases("line method across the antimeridian", dateline, check_total, 40, "2..12 times around a passage of the antimeridian in either direction, arbitrary validity", share=0.5)

    def orbits(r):
        i = base(r)
        n, gaps, long_ = r.choice([4, 6, 9]), [], 0
        for _ in range(n):
            jump = long_ < 3 and r.random() < 0.4
            long_ += jump
            gaps.append(r.choice([5400, 5500, 5600, 5676, 5700, 5800]) + r.randrange(-60, 60) if jump else r.choice([20, 60]))
        i = dict(i, gaps=gaps, **{"for": r.choice([10.0, 30.0, 60.0]), "self": r.choice([None, None, True]), "tgt": None})
        return masks(r, i)
    C.cases("aggregated ground track within a mask", orbits, check_total_masked, 50, "4..9 times over up to four orbits, around the orbit boundaries; masks near the track", share=0.5)

    def wide(r):
        i = base(r)
        boxes = []
        for _ in range(1 if i["maskkind"] in ("polygon", "multi") else r.choice([1, 2])):
            w, h = r.choice([100.0, 170.0, 200.0, 280.0, 340.0, 359.0, 360.0]), r.choice([40.0, 100.0, 120.0, 160.0])
            boxes.append([round(r.uniform(-180, 180 - w), 3), round(r.uniform(-90, 90 - h), 3), w, h])
        if r.random() < 0.3:
            i["gaps"] = [r.choice([900, 1800, 2700, 3600]) for _ in i["gaps"][:6]]
        return dict(i, mask=boxes)
    C.cases("ground track within a wide mask", wide, check_ground, 40, "masks of 100..360 degrees of longitude, steps up to an hour", share=0.4)
    C.cases("ground pixels within a wide mask", wide, check_pixels, 16, "masks of 100..360 degrees of longitude, steps up to an hour", share=0.4)

    def high(r):
        """a small mask around one pixel of a narrow off-nadir instrument, on high ground."""
        i = dict(base(r), index=1, rect=True, cross=r.uniform(2, 4), along=r.uniform(2, 4), cp=4, ap=4, roll=r.choice([-1, 1]) * r.uniform(30, 45), pitch=r.uniform(-10, 10), elev=r.choice([5000.0, 15000.0, 25000.0]),
                 gaps=[30, 30, 30], self=None, tgt=None, maskkind=r.choice(["polygon", "series", "frame"]))
        sat, ts = scene(dict(i, mask=None))
        try:
            ps = list(sat.instruments[1].compute_footprint_pixel_array(single(sat, ts[0]), i["elev"]).geoms)
        except Skip:
            return i
        q = r.choice([ps[0], ps[3], ps[-4], ps[-1], r.choice(ps)])
        return dict(i, mask=[[max(-180, min(179.9, q.x - 0.02)), max(-89, min(89, q.y - 0.02)), 0.04, 0.04]])
    C.cases("small masks on high ground", high, check_pixels, 24, "2..4 deg instruments 30..45 deg off nadir, elevations up to 25 km, masks of 0.04 deg around one pixel", share=0.4)
    C.cases("ground track in small masks on high ground", high, check_ground, 24, "the same", share=0.3)

    def buf(r):
        i = masks(r, dict(base(r)))
        return dict(maskkind=i["maskkind"], mask=i["mask"], alt=r.choice([4e5, 8e5]), inc=r.choice([51.6, 97.0, 0.0]), step=r.choice([1.0, 30.0, 120.0]), scale=r.choice([1.0, 1.0, 2.0]), **{"for": r.choice([10.0, 60.0])})
    C.cases("buffer target", buf, check_buffer, 80, "points within and beyond the documented distance, in the distance system", share=0.5)
    C.cases("cull buffer at high latitude", KNOWN, check_known, 1, "the recorded finding", share=0.5)


def KNOWN(r):
    return dict(orbit=dict(kind="circular", epoch=dict(days=7400, secs=0, us=0), true_anomaly=75.0, altitude=5e5, inclination=97.0, raan=0.0), start=0, gaps=[10] * 4, index=0, elev=0, self=None, tgt=None,
                cross=10.0, along=10.0, roll=0, pitch=0, rect=False, cp=1, ap=1, crs="spice", sataz=False, altaz=False, maskkind="polygon", mask=MASK, **{"for": 100.0})


MASK = [[155.0, 73.0, 2.0, 1.0]]


# ------------------------------------------------------------------ deductive
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
fR = lambda nm, *s: z3.Function(nm, *s, R_)
TM, LON, LAT, HGT = (fR(x, I_) for x in ("time_at", "ssp_lon", "ssp_lat", "ssp_height"))
VEC = {(q, f): [fR(f"{q}_{f}_{c}", I_) for c in "xyz"] for q in ("position", "velocity", "sun") for f in ("gcrs", "itrs")}
LITF = z3.Function("satellite_sunlit", I_, B_)
VAL = z3.Function("valid", I_, I_, R_, R_, R_, R_, B_)      # state, kind of target (0 below, 1 footprint centre, 2 point), index/lon, lat, height, elevation
SWATH = fR("swath_width", R_, R_, R_)
FOOT = z3.Function("footprint", I_, R_, I_)
BUFFER = z3.Function("buffered_point", R_, R_, R_, R_, I_, I_)
CODE = z3.Function("utm_code", R_, R_, R_, R_, I_)
CONT = z3.Function("mask_contains", I_, R_, R_, B_)          # part of the mask
MEET = z3.Function("mask_meets", I_, I_, B_)                 # part, shape
TOUCH = z3.Function("mask_touches_point", I_, R_, R_, B_)
NEARM = z3.Function("within_culling_distance", R_, R_, R_, R_, R_, R_, B_)   # lon, lat, altitude, inclination, field of regard, step
NPIX = z3.Function("pixels_per_time", I_)
PIX = [fR(f"pixel_{c}", I_, I_, R_) for c in "xyz"]
ANGLE = fR("angle_between", *[R_] * 6)
AZ = {k: fR(k, I_, I_, R_, R_, R_, R_) for k in ("sat_alt", "sat_az", "solar_alt", "solar_az")}   # time, kind, place..., elevation
ALTI, INCL, PERIOD = z3.Real("orbit_altitude"), z3.Real("orbit_inclination"), z3.Real("orbit_period")
W = {}
ZERO = z3.RealVal(0)


class Obj(Sym):
    def __init__(self, **k):
        self.__dict__.update(k)

    def _subst(self, p):
        return Obj(**{k: subst(x, p) for k, x in self.__dict__.items()})


class Rows(Sym):
    """3 x N array of a track: the T view is a sequence of rows."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    @property
    def T(self):
        return Seq(self.n, lambda j: np.array(self.f(j) + [None], dtype=object)[:3], True)

    def _subst(self, p):
        return Rows(z3.substitute(self.n, *p), lambda j: seq._late(self.f, j, p))

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None):
            return np.array(self.f(zi(ix[1])) + [None], dtype=object)[:3]
        if isinstance(ix, int):
            return Seq(self.n, lambda j: self.f(j)[ix], True)
        raise Unsupported("array selection")


class TrackTime(Sym):
    def __init__(self, tr):
        self.tr = tr

    def utc_datetime(self):
        tr = self.tr
        return Seq(tr.n, lambda j: STime(TM(tr.src(j))), True)

    def _len(self):
        return mkn(self.tr.n)

    @property
    def shape(self):
        return (mkn(self.tr.n),)

    def _subst(self, p):
        return TrackTime(subst(self.tr, p))


class STimeOf(Sym):
    """skyfield time of one datetime."""

    def __init__(self, t):
        self.t = t

    def _subst(self, p):
        return STimeOf(subst(self.t, p))


class Track(Sym):
    """states of the satellite at the requested times src(0..n)."""

    def __init__(self, n, src):
        self.n, self.src = z3.simplify(zi(n)), src

    def _subst(self, p):
        return Track(z3.substitute(self.n, *p), lambda j: seq_late(self.src, (j,), p))

    @property
    def t(self):
        return TrackTime(self)

    def _len(self):
        return mkn(self.n)

    def _vec(self, q, f):
        return Rows(self.n, lambda j: [Num(x(self.src(zi(j)))) for x in VEC[q, f]])

    @property
    def xyz(self):
        return Obj(m=self._vec("position", "gcrs"))

    position = xyz

    @property
    def velocity(self):
        return Obj(m_per_s=self._vec("velocity", "gcrs"))

    def frame_xyz_and_velocity(self, frame):
        if frame is not itrs:
            raise Unsupported("frame")
        return (Obj(m=self._vec("position", "itrs")), Obj(m_per_s=self._vec("velocity", "itrs")))

    def frame_xyz(self, frame):
        return self.frame_xyz_and_velocity(frame)[0]

    def is_sunlit(self, eph):
        if eph is not constants.de421:
            raise Unsupported("another ephemeris")
        return Seq(self.n, lambda j: SBool(LITF(self.src(j))), True)

    def _getitem(self, interp, ix):
        if isinstance(ix, list):
            ix = seq.of_list(ix, True)
        if isinstance(ix, Seq):
            if seq.elem_kind(ix) != "bool":
                raise Unsupported("track selection")
            core.oblig("track selected by one flag per time", ix.n == self.n)
            s = FSeq(self.n, lambda i: ix.get(i), lambda i: Num(i))
            s._ensure()
            W["filters"].append(s)
            return Track(s.n, lambda j: self.src(s.src(j)))
        if isinstance(ix, (int, Num)):
            i = zi(ix)
            if not core.decide(z3.And(i >= 0, i < self.n)):
                raise SymRaise(IndexError("track index"))
            return State(self.src(i))
        raise Unsupported("track selection")

    def __sub__(self, o):
        if isinstance(o, PlaceAt) and isinstance(o.t, TrackTime):
            return Sight(self.n, self.src, o, "sat")
        raise Unsupported("difference of positions")


class State(Sym):
    """one state of the track."""

    def __init__(self, j):
        self.j = j

    def _subst(self, p):
        return State(z3.substitute(self.j, *p))

    @property
    def t(self):
        return STimeOf(STime(TM(self.j)))

    def __sub__(self, o):
        if isinstance(o, PlaceAt) and isinstance(o.t, STimeOf):
            return Sight(None, lambda _: self.j, o, "sat")
        raise Unsupported("difference of positions")


class Place(Sym):
    """places: of each row of a track (below it, or the footprint centres), or one point."""

    def __init__(self, kind, n, src, elev=None, pt=None):
        self.kind, self.n, self.src, self.elev, self.pt = kind, n, src, elev, pt

    def _subst(self, p):
        return Place(self.kind, self.n if self.n is None else z3.substitute(self.n, *p), self.src and (lambda j: seq_late(self.src, (j,), p)), subst(self.elev, p), subst(self.pt, p))

    def at(self, t):
        return PlaceAt(self, t)

    def args(self, j):
        """description of the place of row j: kind, three coordinates, elevation."""
        if self.kind == 2:
            return (z3.IntVal(2), *[zr(x) for x in self.pt], ZERO)
        return (z3.IntVal(self.kind), z3.ToReal(self.src(j)), ZERO, ZERO, zr(self.elev) if self.elev is not None else ZERO)

    # geodetic coordinates of places below the track
    def _seq(self, f):
        if self.kind != 0:
            raise Unsupported("coordinates of another place")
        return Seq(self.n, lambda j: Num(f(self.src(j))), True)

    @property
    def longitude(self):
        return Obj(degrees=self._seq(LON))

    @property
    def latitude(self):
        return Obj(degrees=self._seq(LAT))

    @property
    def elevation(self):
        return Obj(m=self._seq(HGT))

    @property
    def itrs_xyz(self):
        if self.kind != 0:
            raise Unsupported("coordinates of another place")
        return Obj(m=Rows(self.n, lambda j: [Num(x(self.src(zi(j)))) for x in VEC["position", "itrs"]]))

    def _rbin(self, op, o):
        if op is not ast.Add or o is not constants.de421["earth"]:
            raise Unsupported("place not on the Earth")
        return Observer(self, None, 0)


class PlaceAt(Sym):
    def __init__(self, place, t):
        self.place, self.t = place, t

    def _subst(self, p):
        return PlaceAt(subst(self.place, p), subst(self.t, p))


class Observer(Sym):
    def __init__(self, place, t, k):
        self.place, self.t, self.k = place, t, k

    def _subst(self, p):
        return Observer(subst(self.place, p), subst(self.t, p), self.k)

    def at(self, t):
        return Observer(self.place, t, 1)

    def observe(self, x):
        if self.k != 1 or x is not constants.de421["sun"]:
            raise Unsupported("observed body")
        return Observer(self.place, self.t, 2)

    def apparent(self):
        if self.k != 2:
            raise Unsupported("apparent")
        return Observer(self.place, self.t, 3)

    def altaz(self):
        if self.k != 3:
            raise Unsupported("altaz without apparent")
        if isinstance(self.t, TrackTime):
            return Sight(self.t.tr.n, self.t.tr.src, PlaceAt(self.place, self.t), "solar").altaz()
        if isinstance(self.t, STimeOf):
            j = index_of(self.t.t)
            return Sight(None, lambda _: j, PlaceAt(self.place, self.t), "solar").altaz()
        raise Unsupported("time")


def index_of(t):
    """requested time whose datetime this is (times are distinct)."""
    e = t.e
    if not z3.is_app(e) or not e.decl().eq(TM):
        raise Unsupported("time of unknown origin")
    return e.arg(0)


class Sight(Sym):
    def __init__(self, n, src, o, what):
        self.n, self.src, self.o, self.what = n, src, o, what

    def _subst(self, p):
        return Sight(self.n if self.n is None else z3.substitute(self.n, *p), lambda j: seq_late(self.src, (j,), p), subst(self.o, p), self.what)

    def altaz(self):
        pl, t = self.o.place, self.o.t
        z = z3.IntVal(0)
        ctx.trust("skyfield: altitude and azimuth of the satellite or the apparent sun as seen from the place at the time")

        def ang(k):
            f = AZ[f"{self.what}_{k}"]
            if self.n is None:
                if isinstance(t, STimeOf):
                    core.oblig("place taken at the time of the state", TM(self.src(z)) == t.t.e)
                return Obj(degrees=Num(f(self.src(z), *pl.args(z))))
            if t.tr is not None:
                j = seq.gvar("j")
                core.oblig("places taken at the times of the states", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), t.tr.src(j) == self.src(j))))
                core.oblig("one place per state", z3.BoolVal(True) if pl.kind == 2 else pl.n == self.n)
            return Obj(degrees=Seq(self.n, lambda j: Num(f(self.src(j), *pl.args(j))), True))
        return (ang("alt"), ang("az"), None)


class Shape(Sym):
    """opaque shape number e."""

    def __init__(self, e):
        self.e = e

    def _subst(self, p):
        return Shape(z3.substitute(self.e, *p))

    def _equal(self, o):
        return self.e == o.e if isinstance(o, Shape) else z3.BoolVal(False)

    def _ite(self, c, o, rev):
        return Shape(z3.If(c, o.e if rev else self.e, self.e if rev else o.e)) if isinstance(o, Shape) else NotImplemented

    def _isinstance(self, c):
        return c in (geo.Polygon, geo.MultiPolygon)


class Pixels(Sym):
    def __init__(self, j, elev):
        self.j, self.elev = j, elev

    def _subst(self, p):
        return Pixels(z3.substitute(self.j, *p), subst(self.elev, p))

    @property
    def geoms(self):
        return Seq(NPIX(), lambda q: GPoint(*[Num(x(self.j, q, zr(self.elev))) for x in PIX]))


class Mask(Sym):
    """a mask: one geometry (polygon, multi) or a series/frame of m geometries; whole: every part of it together."""

    def __init__(self, kind, m, whole=True):
        self.kind, self.m, self.whole = kind, m, whole

    def _subst(self, p):
        return self

    def _isinstance(self, c):
        return c is {"polygon": geo.Polygon, "multi": geo.MultiPolygon, "series": gpd.GeoSeries, "frame": gpd.GeoDataFrame}[self.kind]

    def _each(self, f):
        if self.kind in ("polygon", "multi"):
            return SBool(f(z3.IntVal(0)))
        return Seq(self.m, lambda k: SBool(f(k)), True)

    def contains(self, p):
        if not isinstance(p, GPoint):
            raise Unsupported("containment of a shape")
        return self._each(lambda k: CONT(k, zr(p.c[0]), zr(p.c[1])))

    def intersects(self, s):
        if not isinstance(s, Shape):
            raise Unsupported("intersection of another shape")
        return self._each(lambda k: MEET(k, s.e))

    @property
    def geometry(self):
        return self if self.kind == "series" else Mask("series", self.m)

    def tolist(self):
        if self.kind != "series":
            raise Unsupported("list of a mask")
        return MaskParts(self.m)

    def dissolve(self):
        if self.kind != "frame":
            raise Unsupported("dissolve of a mask")
        return Dissolved()

    def union_all(self):
        return Whole()

    @property
    def unary_union(self):
        return Whole()

    def any(self, f):
        """some part of the mask has f."""
        if self.kind in ("polygon", "multi"):
            return f(z3.IntVal(0))
        k = seq.gvar("k")
        return z3.Exists([k], z3.And(k >= 0, k < self.m, f(k)))


class MaskParts(Sym):
    def __init__(self, m):
        self.m = m

    def _iter(self):
        raise Unsupported("parts of a mask")


class Dissolved(Sym):
    @property
    def iloc(self):
        return self

    def _getitem(self, interp, ix):
        if ix != 0:
            raise SymRaise(IndexError("one row"))
        return Obj(geometry=Whole())

    @property
    def geometry(self):
        return self


class Whole(Sym):
    """union of the parts of the mask."""

    def _isinstance(self, c):
        return c in (geo.Polygon, geo.MultiPolygon)


class Buffered(Sym):
    def __init__(self, args):
        self.args = args

    def _isinstance(self, c):
        return c in (geo.Polygon, geo.MultiPolygon)

    def _subst(self, p):
        return self

    def contains(self, p):
        return SBool(NEARM(zr(p.c[0]), zr(p.c[1]), *[zr(a) for a in self.args]))


class Code(Sym):
    def __init__(self, e):
        self.e = e

    def _subst(self, p):
        return Code(z3.substitute(self.e, *p))

    def _equal(self, o):
        return self.e == o.e if isinstance(o, Code) else z3.BoolVal(False)


class Transf(Sym):
    def __init__(self, a, b, xy):
        self.a, self.b, self.xy = a, b, xy

    def _subst(self, p):
        return Transf(subst(self.a, p), subst(self.b, p), self.xy)

    def _ite(self, c, o, rev):
        if isinstance(o, Transf) and o.xy == self.xy:
            a, b = (o, self) if rev else (self, o)
            return Transf(core.ite(c, a.a, b.a), core.ite(c, a.b, b.b), self.xy)
        return NotImplemented


def crs_id(x):
    """number of a coordinate system."""
    if isinstance(x, Code):
        return x.e
    if isinstance(x, str):
        return z3.IntVal(-1 - W["names"].index(x)) if x in W["names"] else (W["names"].append(x) or z3.IntVal(-len(W["names"])))
    raise Unsupported("coordinate system")


class RowObj(Sym):
    def __init__(self, fr, j):
        self.fr, self.j = fr, j

    def __getattr__(self, name):
        if name.startswith("_") or name not in self.__dict__.get("fr").cols:
            raise AttributeError(name)
        return self.fr.cols[name](self.j)

    def _getitem(self, interp, ix):
        return self.fr.cols[ix](self.j)

    def _subst(self, p):
        return RowObj(subst(self.fr, p), z3.substitute(self.j, *p))


def settle(x):
    return x.resolve() if isinstance(x, core.Case) else x


def frame_apply(interp, fr, args, kw):
    if kw.get("axis") not in (1, "columns") or len(args) != 1 or set(kw) != {"axis"}:
        raise Unsupported("apply options")
    n, i, c, val, skipped = seq.generic_map(interp, Seq(fr.n, lambda j: RowObj(fr, j)), lambda x: interp.call(args[0], [x], {}))
    return Seq(fr.n, val, True)


def unique(interp, s, args, kw):
    """distinct values, each value of the column among them."""
    n = tables.fresh_fn("distinct", I_)()
    U, P_ = tables.fresh_fn("distinct_row", I_, I_), tables.fresh_fn("distinct_pos", I_, I_)
    k = seq.gvar("k")
    ctx.trust("pandas unique: exactly the values of the column")
    tables.put(n >= 0)
    tables.put(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(U(k) >= 0, U(k) < s.n)), patterns=[U(k)]))
    tables.put(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.n), z3.And(P_(k) >= 0, P_(k) < n, equal(s.get(U(P_(k))), s.get(k)))), patterns=[P_(k)]))
    r = Seq(n, lambda j: s.get(U(j)))
    r.unique_of = (s, P_)
    return r


def seq_index(interp, s, args, kw):
    """list.index of a value: here of one of the times (distinct)."""
    x = args[0]
    j = tables.fresh_fn("position", I_)() if ctx.gvars else core.fresh("position", "int")
    q = seq.gvar("q")
    if not isinstance(x, STime):
        raise Unsupported("position of another value")
    if not core.decide(z3.Exists([q], z3.And(q >= 0, q < s.n, equal(s.get(q), x)))):
        raise SymRaise(ValueError("not in list"))
    core.assume(z3.And(j >= 0, j < s.n, equal(s.get(j), x)))
    return Num(j)


class DiffTimes(Seq):
    """np.diff of the requested times; its mean telescopes."""

    def mean(self):
        ctx.trust("numpy: the mean of consecutive differences is (last - first)/count")
        return (self.last - self.first) / mkn(self.n)


def install(kind):
    W.clear()
    W.update(filters=[], names=[])
    G = type(wgs84)

    def below(interp, self_, args, kw):
        x = args[0]
        if isinstance(x, Track):
            return Place(0, x.n, x.src)
        if isinstance(x, State):
            raise Unsupported("single position")
        return NotImplemented
    for nm in ("geographic_position_of", "subpoint_of", "subpoint"):
        METHOD_MODELS[(G, nm)] = below

    def latlon(interp, self_, args, kw):
        a = list(args) + [None] * (3 - len(args))
        for k, nm in enumerate(("latitude_degrees", "longitude_degrees", "elevation_m")):
            a[k] = kw.get(nm, a[k])
        if not any(isinstance(x, Num) for x in a):
            return NotImplemented
        return Place(2, None, None, None, (a[1], a[0], 0 if a[2] is None else a[2]))
    METHOD_MODELS[(G, "latlon")] = latlon
    METHOD_MODELS[(type(constants.timescale), "from_datetime")] = lambda interp, self_, args, kw: STimeOf(args[0]) if isinstance(args[0], STime) else NotImplemented
    METHOD_MODELS[(tables.TFrame, "apply")] = frame_apply
    METHOD_MODELS[(tables.TFrame, "dissolve")] = dissolve
    tables.stub(tables.TFrame, "apply")
    tables.stub(Seq, "unique")
    tables.stub(Seq, "index")
    Seq.values = property(lambda s: s)
    METHOD_MODELS[(Seq, "unique")] = unique
    METHOD_MODELS[(Seq, "index")] = seq_index
    MODELS[pyproj.Transformer.from_crs] = lambda interp, args, kw: Transf(args[0], args[1], bool(kw.get("always_xy", False)))
    MODELS[pyproj.CRS] = lambda interp, args, kw: args[0]
    MODELS[TR.unary_union] = lambda interp, args, kw: Whole() if isinstance(args[0], (Mask, MaskParts)) else NotImplemented
    old = MODELS[np.diff]

    def diff(interp, args, kw):
        x = args[0]
        if isinstance(x, Seq) and isinstance(x.get(z3.IntVal(0)), STime):
            r = DiffTimes(x.n - 1, lambda j: x.get(j + 1) - x.get(j), True)
            r.first, r.last = x.get(z3.IntVal(0)), x.get(z3.simplify(x.n - 1))
            return r
        return old(interp, args, kw)
    MODELS[np.diff] = diff

    def cross(interp, args, kw):
        a, b = args
        if isinstance(a, Rows) and isinstance(b, Rows) and kw.get("axis") == 0:
            def f(j):
                x, y = a.f(j), b.f(j)
                return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
            return Rows(a.n, f)
        return NotImplemented
    MODELS[np.cross] = cross
    MODELS[TR.angle_between] = lambda interp, args, kw: Seq(args[0].n, lambda j: Num(ANGLE(*[zr(x) for x in args[0].f(j) + args[1].f(j)])), True) if isinstance(args[0], Rows) and isinstance(args[1], Rows) else NotImplemented
    gdf = MODELS[gpd.GeoDataFrame]

    def records(interp, args, kw):
        x = args[0] if args else None
        if isinstance(x, list) and x and all(isinstance(y, dict) for y in x):
            x = seq.of_list(x)
        if isinstance(x, Seq) and set(kw) <= {"crs"} and isinstance(x.get(seq.CANON[0]), dict):
            ctx.trust("geopandas: a table built from a list of records has one row per record, in order")
            fr = tables.TFrame(x.n, {k: (lambda j, k=k: settle(x.get(j)[k])) for k in x.get(seq.CANON[0])}, "range")
            W["records"] = x
            return fr
        return gdf(interp, args, kw)
    MODELS[gpd.GeoDataFrame] = records
    CONTRACTS.update(CT)
    base = tables.TFrame.__dict__["_getitem"] if "_getitem0" not in W else W["_getitem0"]
    if not getattr(base, "rows", False):
        def getitem(self, interp, ix, base=base):
            if isinstance(ix, Seq):
                return select_rows(interp, self, ix)
            return base(self, interp, ix)
        getitem.rows = True
        tables.TFrame._getitem = getitem


class SunFromEarth(Sym):
    def __init__(self, t, k):
        self.t, self.k = t, k

    def observe(self, x):
        if x is not constants.de421["sun"]:
            raise Unsupported("observed body")
        return SunFromEarth(self.t, 1)

    @property
    def position(self):
        tr = self.t.tr
        return Obj(m=Rows(tr.n, lambda j: [Num(x(tr.src(zi(j)))) for x in VEC["sun", "gcrs"]]))


METHOD_MODELS[(type(constants.de421["earth"]), "at")] = lambda interp, self_, args, kw: SunFromEarth(args[0], 0) if isinstance(args[0], TrackTime) and self_ is constants.de421["earth"] else NotImplemented


def _bind(args, kw, names, defaults):
    d = dict(zip(names, args))
    d.update(kw)
    for k, x in defaults.items():
        d.setdefault(k, x)
    return d


def c_valid(interp, args, kw):
    d = _bind(args, kw, ("self", "track", "target"), {})
    tr, tg = d.get("orbit_track", d.get("track")), d.get("target")
    if not isinstance(tr, (Track, State)):
        raise Unsupported("validity of another track")
    ctx.trust("is_valid_observation: validity of each time for the target there (contract P22)")
    if isinstance(tr, State):
        return SBool(VAL(tr.j, *(tg.args(z3.IntVal(0)) if tg is not None else (z3.IntVal(0), z3.ToReal(tr.j), ZERO, ZERO, ZERO))))
    if tg is not None and tg.kind != 2:
        core.oblig("one target per time", tg.n == tr.n)
    f = lambda j: SBool(VAL(tr.src(j), *(tg.args(j) if tg is not None else (z3.IntVal(0), z3.ToReal(tr.src(j)), ZERO, ZERO, ZERO))))
    if core.decide(tr.n == 1):
        return f(z3.IntVal(0))
    return Seq(tr.n, f, True)


def c_foot(interp, args, kw):
    d = _bind(args, kw, ("self", "orbit_track", "number_points", "elevation"), dict(number_points=None, elevation=0))
    tr = d["orbit_track"]
    if d["number_points"] is not None:
        raise Unsupported("other resolution")
    ctx.trust("compute_footprint: footprint of each time, a single shape for one time (contract P21)")
    f = lambda j: Shape(FOOT(tr.src(j), zr(d["elevation"])))
    if core.decide(tr.n == 1):
        return f(z3.IntVal(0))
    return Seq(tr.n, f)


def c_center(interp, args, kw):
    d = _bind(args, kw, ("self", "orbit_track", "elevation"), dict(elevation=0))
    tr = d["orbit_track"]
    return Place(1, tr.n, tr.src, d["elevation"])


def c_pixels(interp, args, kw):
    d = _bind(args, kw, ("self", "orbit_track", "elevation"), dict(elevation=0))
    tr = d["orbit_track"]
    ctx.trust("compute_footprint_pixel_array: the pixels of each time, a single collection for one time (contract P21)")
    f = lambda j: Pixels(tr.src(j), d["elevation"])
    if core.decide(tr.n == 1):
        return f(z3.IntVal(0))
    return Seq(tr.n, f)


def c_swath(interp, args, kw):
    d = _bind(args, kw, ("altitude", "field_of_regard", "elevation"), dict(elevation=0))
    return Num(SWATH(zr(d["altitude"]), zr(d["field_of_regard"]), zr(d["elevation"])))


def c_buffer(interp, args, kw):
    d = _bind(args, kw, ("geometry", "altitude", "inclination", "field_of_regard", "time_step"), {})
    if set(d) - {"geometry", "altitude", "inclination", "field_of_regard", "time_step"}:
        raise Unsupported("other culling distance")
    g = d["geometry"]
    if not (isinstance(g, Whole) or isinstance(g, Mask) and g.kind in ("polygon", "multi")):
        core.oblig("the whole mask is buffered", z3.BoolVal(False))
    return Buffered([d[k] for k in ("altitude", "inclination", "field_of_regard", "time_step")])


def c_utm(interp, args, kw):
    p, sw = args
    return Code(CODE(*[zr(x) for x in p.c], zr(sw)))


def c_footbuf(interp, args, kw):
    d = _bind(args, kw, ("geometry", "to_crs", "from_crs", "swath_width", "elevation"), {})
    g, a, b = d["geometry"], d["to_crs"], d["from_crs"]
    if not isinstance(g, GPoint) or not isinstance(a, Transf) or not isinstance(b, Transf):
        raise Unsupported("buffer of another shape")
    core.oblig("footprint: projected from longitude/latitude and back", z3.And(z3.BoolVal(a.a == "EPSG:4326" and b.b == "EPSG:4326" and a.xy and b.xy), crs_id(a.b) == crs_id(b.a)))
    return Shape(BUFFER(zr(g.c[0]), zr(g.c[1]), zr(d["swath_width"]), zr(d["elevation"]), crs_id(a.b)))


def c_orbit(interp, args, kw):
    d = _bind(args, kw, ("satellite", "times", "instrument_index", "elevation"), dict(instrument_index=0, elevation=0))
    if set(d) - {"satellite", "times", "instrument_index", "elevation"} or d["satellite"] is not W["sat"]:
        raise Unsupported("orbit track with options")
    ts = d["times"]
    core.oblig("orbit track of the same instrument", equal(d["instrument_index"], W["index"]))
    src = lambda j: index_of(ts.get(j))
    fr = W["for"]
    cols = dict(time=lambda j: ts.get(j), geometry=lambda j: GPoint(Num(LON(src(j))), Num(LAT(src(j))), Num(HGT(src(j)))),
                swath_width=lambda j: Num(SWATH(HGT(src(j)), zr(fr), zr(d["elevation"]))),
                valid_obs=lambda j: SBool(VAL(src(j), z3.IntVal(0), z3.ToReal(src(j)), ZERO, ZERO, ZERO)), satellite=lambda j: "sat", instrument=lambda j: "inst")
    return tables.TFrame(ts.n, cols, "range")


INS = "tatc.schemas.instrument."
CT = {**{INS + c + ".is_valid_observation": c_valid for c in ("Instrument", "PointedInstrument")}, **{INS + c + ".compute_footprint": c_foot for c in ("Instrument", "PointedInstrument")},
      **{INS + c + ".compute_footprint_center": c_center for c in ("Instrument", "PointedInstrument")}, INS + "PointedInstrument.compute_footprint_pixel_array": c_pixels,
      "tatc.utils.field_of_regard_to_swath_width": c_swath, "tatc.utils.buffer_target": c_buffer, "tatc.utils.buffer_footprint": c_footbuf,
      "tatc.analysis.track._get_utm_epsg_code": c_utm}


class Tle(Sym):
    def to_tle(self):
        return self

    def get_orbit_track(self, times, try_repeat=None):
        if isinstance(times, Seq):
            return Track(times.n, lambda j: index_of(times.get(j)))
        raise Unsupported("track of one time")

    def get_altitude(self):
        return Num(ALTI)

    def get_inclination(self):
        return Num(INCL)

    def get_orbit_period(self):
        return SDelta(PERIOD)

    def _subst(self, p):
        return self


def clip(interp, args, kw):
    fr, mask = args[0], args[1] if len(args) > 1 else kw["mask"]
    if set(kw) - {"mask"} or not isinstance(fr, tables.TFrame) or not isinstance(mask, Mask):
        raise Unsupported("clip options")
    ctx.trust("geopandas clip: exactly the rows whose geometry meets the mask, points unchanged and polygons cut to the mask (order not relied on)")
    g = fr.cols["geometry"]

    def meets(j):
        x = g(j)
        if isinstance(x, GPoint):
            return mask.any(lambda k: TOUCH(k, zr(x.c[0]), zr(x.c[1])))
        return mask.any(lambda k: MEET(k, x.e))
    s = FSeq(fr.n, lambda j: mkb(meets(j)), lambda j: Num(j))
    s._ensure()
    s.clip = True
    W["filters"].append(s)
    cut = lambda x: x if isinstance(x, GPoint) else GOp("clip", x, mask)
    return tables.TFrame(s.n, {k: (lambda j, c=c, k=k: cut(c(s.src(j))) if k == "geometry" else c(s.src(j))) for k, c in fr.cols.items()})


def deductive(V):
    def setup(v, mk, pointed=False, rect=True):
        install(mk)
        MODELS[gpd.clip] = clip
        n = v.int("times", ge=0).e
        idx = v.int("instrument_index", ge=0, le=1)
        elev, fr = v.real("elevation"), v.real("field_of_regard", gt=0, le=180)
        a, b = seq.gvar("a"), seq.gvar("b")
        v.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), TM(a) < TM(b)), patterns=[z3.MultiPattern(TM(a), TM(b))]))
        times = Seq(n, lambda j: STime(TM(j)))
        cls = PointedInstrument if pointed else Instrument
        inst = SObj(cls, dict(name="inst", field_of_regard=fr, req_self_sunlit=None, req_target_sunlit=None, min_access_time=None, **({"is_rectangular": rect} if pointed else {})))
        other = SObj(Instrument, dict(name="other", field_of_regard=v.real("other_field_of_regard", gt=0, le=180), req_self_sunlit=None, req_target_sunlit=None))
        k = 0 if v.check(equal(idx, 0)) else 1
        sat = SObj(Satellite, dict(name="sat", orbit=Tle(), instruments=[inst, other] if k == 0 else [other, inst]))
        W.update(sat=sat, index=k)
        W["for"] = fr
        mask = None
        if mk:
            m = v.int("parts", ge=1).e
            mask = Mask(mk, m)
            x, y, q = z3.Real("x!"), z3.Real("y!"), seq.gvar("q")
            v.assume(z3.ForAll([q, x, y], z3.Implies(CONT(q, x, y), TOUCH(q, x, y)), patterns=[CONT(q, x, y)]))
        return n, k, elev, fr, times, sat, mask

    def rowset(v, out, n, mask, keep, values, what, per=None, order=True):
        """out: exactly one row per time j (and pixel q) with keep, carrying values(j, q)."""
        if not isinstance(out, tables.TFrame):
            raise Unsupported("another kind of table")
        r, j = z3.Int("row"), z3.Int("j")
        tcol = out.cols["time"]
        if mask is None:
            if per is None:
                v.ensure(f"{what}: one row per time", out.n == n)
                v.assume(z3.And(r >= 0, r < n))
                v.ensure(f"{what}: rows in the order of the times", equal(tcol(r), STime(TM(r))))
                check_row(v, out, r, values(r), what)
            return
        v.assume(z3.And(r >= 0, r < out.n))
        w = index_of(tcol(r))
        fs = list(W["filters"])
        ch, x = [r], r
        for s in reversed(fs):
            x = s.src(x)
            ch.append(x)
        H = v.instances(*ch)
        v.ensure(f"{what}: a row is of a requested time that meets the mask", z3.And(w >= 0, w < n, keep(w)), hints=H)
        check_row(v, out, r, values(w), what, H)
        r2 = z3.Int("row2")
        v.assume(z3.And(r2 > r, r2 < out.n))
        x, y, pairs, c2 = r, r2, [(r, r2)], [r2]
        for s in reversed(fs):
            x, y = s.src(x), s.src(y)
            pairs.append((x, y))
            c2.append(y)
        v.ensure(f"{what}: no time twice", z3.Not(equal(tcol(r), tcol(r2))), hints=H + v.instances(*c2, *pairs))

    def complete(v, out, n, keep, what):
        j = z3.Int("j")
        v.assume(z3.And(j >= 0, j < n, keep(j)))
        x, ch = j, [j]
        for s in W["filters"]:
            x = s.rank(x)
            ch.append(x)
        if not isinstance(out, tables.TFrame):
            v.ensure(f"{what}: no time within the mask missing", z3.BoolVal(False))
            return
        if "time" not in out.cols:
            raise Unsupported("no time column")
        v.ensure(f"{what}: no time within the mask missing", z3.And(x >= 0, x < out.n, equal(out.cols["time"](x), STime(TM(j)))), hints=v.instances(*ch))

    def check_row(v, out, r, vals, what, H=()):
        v.ensure(f"{what}: columns", z3.BoolVal(set(out.cols) == set(vals)))
        for c in vals:
            if c in out.cols:
                g, want = out.cols[c](r), vals[c]
                if isinstance(want, GOp):
                    v.ensure(f"{what}: {c} of the row", z3.And(z3.BoolVal(isinstance(g, GOp) and g.op == "clip"), equal(g.g, want.g)) if isinstance(g, GOp) else z3.BoolVal(False), hints=H)
                else:
                    v.ensure(f"{what}: {c} of the row", equal(g, want), hints=H)

    def empty(out):
        """the empty result table."""
        return not isinstance(out, tables.TFrame) and isinstance(out, gpd.GeoDataFrame)

    # ---- orbit tracks
    for mk in (None, "polygon", "multi", "series", "frame"):
        for co in TR.OrbitCoordinate:
            for outp in TR.OrbitOutput:
                extra = outp == TR.OrbitOutput.POSITION
                if mk in ("multi", "frame") and co != TR.OrbitCoordinate.WGS84:
                    continue

                def body(v, mk=mk, co=co, outp=outp, extra=extra):
                    n, k, elev, fr, times, sat, mask = setup(v, mk)
                    out = v.resolve(v.call(TR.collect_orbit_track, sat, times, k, elev, mask, co, outp, extra, extra, extra))
                    what = "orbit track"

                    def values(j):
                        f = "itrs" if co == TR.OrbitCoordinate.ECEF else "gcrs"
                        d = dict(time=STime(TM(j)), satellite="sat", instrument="inst", swath_width=Num(SWATH(HGT(j), fr.e, elev.e)), valid_obs=SBool(VAL(j, z3.IntVal(0), z3.ToReal(j), ZERO, ZERO, ZERO)),
                                 geometry=GPoint(Num(LON(j)), Num(LAT(j)), Num(HGT(j))) if co == TR.OrbitCoordinate.WGS84 else GPoint(*[Num(x(j)) for x in VEC["position", f]]))
                        if outp == TR.OrbitOutput.POSITION_VELOCITY:
                            d["velocity"] = GPoint(*[Num(x(j)) for x in VEC["velocity", "gcrs" if co == TR.OrbitCoordinate.ECI else "itrs"]])
                        if extra:
                            d["sat_sunlit"] = SBool(LITF(j))
                            pl = (z3.IntVal(0), z3.ToReal(j), ZERO, ZERO, ZERO)
                            d["solar_alt"], d["solar_az"] = Num(AZ["solar_alt"](j, *pl)), Num(AZ["solar_az"](j, *pl))
                            p, u, s = ([x(j) for x in VEC[q, "gcrs"]] for q in ("position", "velocity", "sun"))
                            nrm = [p[1] * u[2] - p[2] * u[1], p[2] * u[0] - p[0] * u[2], p[0] * u[1] - p[1] * u[0]]
                            d["solar_beta"] = M.deg(Num(core.PI / 2 - ANGLE(*nrm, *s)))
                        return d
                    keep = (lambda j: mask.any(lambda q: CONT(q, LON(j), LAT(j)))) if mask is not None else None
                    if v.check(n == 0):
                        v.ensure("no times: no rows", z3.BoolVal(empty(out)) if not isinstance(out, tables.TFrame) else out.n == 0)
                        return
                    if mask is None:
                        rowset(v, out, n, None, None, values, what)
                        return
                    if empty(out):
                        j = z3.Int("j")
                        v.assume(z3.And(j >= 0, j < n))
                        v.ensure(f"{what}: empty only if no time is within the mask", z3.Not(keep(j)), hints=v.instances(j))
                        return
                    if v.bool("soundness direction").e is not None and v.check(z3.Bool("soundness direction")):
                        rowset(v, out, n, mask, keep, values, what)
                    else:
                        complete(v, out, n, keep, what)
                V.vc(f"collect_orbit_track, {co.value}, {outp.value}, mask {mk}", body)

    # ---- ground tracks
    for mk in (None, "polygon", "multi", "series", "frame"):
        for crs in ("spice", "EPSG:4087", "utm"):
            if mk in ("multi",) and crs != "spice":
                continue

            def body(v, mk=mk, crs=crs):
                n, k, elev, fr, times, sat, mask = setup(v, mk)
                CONTRACTS["tatc.analysis.track.collect_orbit_track"] = c_orbit
                try:
                    out = v.resolve(v.call(TR.collect_ground_track, sat, times, k, elev, mask, crs, True, True))
                finally:
                    CONTRACTS.pop("tatc.analysis.track.collect_orbit_track", None)
                what = "ground track"
                sw = lambda j: SWATH(HGT(j), fr.e, elev.e)

                def shape(j):
                    if crs == "spice":
                        return FOOT(j, elev.e)
                    return BUFFER(LON(j), LAT(j), sw(j), elev.e, CODE(LON(j), LAT(j), HGT(j), sw(j)) if crs == "utm" else crs_id(crs))

                def values(j):
                    pl = (z3.IntVal(1), z3.ToReal(j), ZERO, ZERO, elev.e)
                    d = dict(time=STime(TM(j)), satellite="sat", instrument="inst", valid_obs=SBool(VAL(j, *pl)), geometry=Shape(shape(j)) if mask is None else GOp("clip", Shape(shape(j)), mask))
                    d.update({c: Num(AZ[c](j, *pl)) for c in AZ})
                    return d
                step = (TM(n - 1) - TM(0)) / z3.ToReal(n - 1)
                near = lambda j: NEARM(LON(j), LAT(j), ALTI, INCL, fr.e, step)
                meets = lambda s: mask.any(lambda q: MEET(q, s))
                must = lambda j: z3.And(meets(shape(j)), z3.Or(n == 1, z3.And(meets(FOOT(j, elev.e)), near(j))))
                may = lambda j: z3.And(meets(shape(j)), z3.Or(n == 1, meets(FOOT(j, elev.e))))
                if v.check(n == 0):
                    v.ensure("no times: no rows", z3.BoolVal(empty(out)) if not isinstance(out, tables.TFrame) else out.n == 0)
                    return
                if mask is None:
                    rowset(v, out, n, None, None, values, what)
                    return
                if empty(out):
                    j = z3.Int("j")
                    v.assume(z3.And(j >= 0, j < n))
                    x = j
                    ch = [j]
                    for s in W["filters"]:
                        x = s.rank(x)
                        ch.append(x)
                    v.ensure(f"{what}: empty only if no time within the culling distance meets the mask", z3.Not(must(j)), hints=v.instances(*ch))
                    return
                if v.check(z3.Bool("soundness direction")):
                    rowset(v, out, n, mask, may, values, what)
                else:
                    complete(v, out, n, must, what)
            V.vc(f"collect_ground_track, {crs}, mask {mk}", body)

    # ---- ground pixels
    for mk in (None, "polygon", "multi", "series", "frame"):
        def body(v, mk=mk):
            n, k, elev, fr, times, sat, mask = setup(v, mk, pointed=True)
            v.assume(NPIX() >= 1)
            out = v.resolve(v.call(TR.collect_ground_pixels, sat, times, k, elev, mask, True, True))
            what = "ground pixels"
            if v.check(n == 0):
                v.ensure("no times: no rows", z3.BoolVal(empty(out)) if not isinstance(out, tables.TFrame) else out.n == 0)
                return
            step = (TM(n - 1) - TM(0)) / z3.ToReal(n - 1)
            near = lambda j: NEARM(LON(j), LAT(j), ALTI, INCL, fr.e, step)
            foot = lambda j: mask.any(lambda x: MEET(x, FOOT(j, elev.e)))
            touch = lambda j, q: mask.any(lambda x: TOUCH(x, PIX[0](j, q, elev.e), PIX[1](j, q, elev.e)))
            must = lambda j, q: z3.And(touch(j, q), z3.Or(n == 1, z3.And(foot(j), near(j))))
            may = lambda j, q: z3.And(touch(j, q), z3.Or(n == 1, foot(j)))

            def values(j, q):
                p = [x(j, q, elev.e) for x in PIX]
                pl = (z3.IntVal(2), *p, ZERO)
                d = dict(time=STime(TM(j)), satellite="sat", instrument="inst", valid_obs=SBool(VAL(j, *pl)), geometry=GPoint(*[Num(x) for x in p]))
                d.update({c: Num(AZ[c](j, *pl)) for c in AZ})
                return d
            tf = [s for s in W["filters"] if not hasattr(s, "clip")]
            cf = [s for s in W["filters"] if hasattr(s, "clip")]
            j, q = z3.Ints("j q")
            if empty(out):
                v.assume(z3.And(j >= 0, j < n, q >= 0, q < NPIX()))
                x, ch = j, [j]
                for s in tf:
                    x = s.rank(x)
                    ch.append(x)
                v.ensure(f"{what}: empty only if no pixel within the culling distance is in the mask", z3.Not(must(j, q)), hints=v.instances(*ch))
                return
            if not isinstance(out, tables.TFrame) or not isinstance(W.get("records"), seq.FlatSeq):
                raise Unsupported("another kind of table")
            F_ = W["records"]
            F_._ensure()
            if mask is None:
                v.assume(z3.And(j >= 0, j < n, q >= 0, q < NPIX()))
                r = F_.r(j, q)
                H = v.instances(j, (j, q), r)
                v.ensure(f"{what}: one row per time and pixel", out.n == n * NPIX())
                v.ensure(f"{what}: pixels of a time together, times in order", r == j * NPIX() + q, hints=H)
                vals = values(j, q)
                v.ensure(f"{what}: columns", z3.BoolVal(set(out.cols) == set(vals)))
                for c in vals:
                    if c in out.cols:
                        v.ensure(f"{what}: {c} of the row", equal(out.cols[c](r), vals[c]), hints=H + positions(v, r))
                return
            if len(cf) != 1:
                raise Unsupported("not clipped once")
            if v.check(z3.Bool("soundness direction")):
                r = z3.Int("row")
                v.assume(z3.And(r >= 0, r < out.n))
                w = index_of(out.cols["time"](r))
                g = out.cols["geometry"](r)
                if not isinstance(g, GPoint) or not g.c[0].e.decl().eq(PIX[0]):
                    raise Unsupported("geometry of unknown origin")
                pq = g.c[0].e.arg(1)
                ch, x = [r], cf[0].src(r)
                ch += [x, F_.o(x)]
                x = F_.o(x)
                for s in reversed(tf):
                    x = s.src(x)
                    ch.append(x)
                H = v.instances(*ch) + positions(v, ch[1])
                v.ensure(f"{what}: a row is of a requested time and pixel in the mask", z3.And(w >= 0, w < n, pq >= 0, pq < NPIX(), may(w, pq)), hints=H)
                vals = values(w, pq)
                v.ensure(f"{what}: columns", z3.BoolVal(set(out.cols) == set(vals)))
                for c in vals:
                    if c in out.cols:
                        v.ensure(f"{what}: {c} of the row", equal(out.cols[c](r), vals[c]), hints=H)
            else:
                v.assume(z3.And(j >= 0, j < n, q >= 0, q < NPIX(), must(j, q)))
                x, ch = j, [j]
                for s in tf:
                    x = s.rank(x)
                    ch.append(x)
                y = F_.r(x, q)
                z = cf[0].rank(y)
                H = v.instances(*ch, y, z, (x, q))
                g = out.cols["geometry"](z)
                v.ensure(f"{what}: no pixel in the mask missing", z3.And(z >= 0, z < out.n, equal(out.cols["time"](z), STime(TM(j))), equal(g, values(j, q)["geometry"])), hints=H)
        V.vc(f"collect_ground_pixels, mask {mk}", body)

    def body_kind(v):
        n, k, elev, fr, times, sat, mask = setup(v, None, pointed=True, rect=False)
        v.assume(n >= 1)
        try:
            v.call(TR.collect_ground_pixels, sat, times, k, elev, None, False, False)
        except SymRaise as e:
            v.ensure("only rectangular pointed instruments have pixels: a value error otherwise", z3.BoolVal(getattr(e, "cls", None) in (ValueError, "ValueError")))
            return
        v.ensure("only rectangular pointed instruments have pixels: a value error otherwise", z3.BoolVal(False))
    V.vc("collect_ground_pixels, no pixels", body_kind)

    # ---- aggregated ground tracks, point method
    for dis in (False, True):
        def body(v, dis=dis):
            n, k, elev, fr, times, sat, mask = setup(v, "polygon")
            v.assume(n >= 1)
            v.assume(PERIOD > 0)
            m = v.int("rows", ge=1).e
            SRC, OKR, GEOM = z3.Function("row_time", I_, I_), z3.Function("row_valid", I_, B_), z3.Function("row_shape", I_, I_)
            a = seq.gvar("a")
            v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), z3.And(SRC(a) >= 0, SRC(a) < n)), patterns=[SRC(a)]))
            some = z3.Int("some_valid")
            v.assume(z3.And(some >= 0, some < m, OKR(some)))

            def c_ground(interp, args, kw):
                d = _bind(args, kw, ("satellite", "times", "instrument_index", "elevation", "mask", "crs"), dict(instrument_index=0, elevation=0, mask=None, crs="EPSG:4087"))
                core.oblig("footprints of the same request", z3.And(z3.BoolVal(d["satellite"] is sat and d["times"] is times and d["mask"] is mask and d["crs"] == "spice" and not set(d) - {"satellite", "times", "instrument_index", "elevation", "mask", "crs"}), equal(d["instrument_index"], k), equal(d["elevation"], elev)))
                return tables.TFrame(m, dict(time=lambda j: STime(TM(SRC(j))), satellite=lambda j: "sat", instrument=lambda j: "inst", valid_obs=lambda j: SBool(OKR(j)), geometry=lambda j: Shape(GEOM(j))), "range")
            CONTRACTS["tatc.analysis.track.collect_ground_track"] = c_ground
            try:
                out = v.resolve(v.call(TR.compute_ground_track, sat, times, k, elev, mask, "spice", "point", dis))
            finally:
                CONTRACTS.pop("tatc.analysis.track.collect_ground_track", None)
            if not isinstance(out, tables.TFrame) or len(W.get("selected", [])) != 1 or len(W.get("grouped", [])) != 1:
                raise Unsupported("another kind of table")
            S, G = W["selected"][0], W["grouped"][0]
            orbit = lambda r: z3.ToInt((TM(SRC(r)) - TM(0)) / PERIOD)
            h, p, r = z3.Ints("h p r")
            U = out.cols["geometry"](z3.IntVal(0)) if dis else out.cols["geometry"](h)
            if not isinstance(U, tables.Union):
                raise Unsupported("another geometry")
            if dis:
                v.ensure("one row in all", out.n == 1)
                v.ensure("every orbit included", U.mem.n == G.m)
                U = U.mem.get(h)
                if not isinstance(U, tables.Union):
                    raise Unsupported("another geometry")
            else:
                v.ensure("one row per orbit", out.n == G.m)
            if v.check(z3.Bool("soundness direction")):
                v.assume(z3.And(h >= 0, h < G.m, p >= 0, p < U.mem.n))
                e = U.mem.get(p)
                x = e.e.arg(0)
                H = v.instances(h, p, (h, p), G.row(h, p), G.row(h, z3.IntVal(0)), (h, z3.IntVal(0)), (G.row(h, p), G.row(h, z3.IntVal(0))), S.src(G.row(h, p)))
                v.ensure("a united footprint is of a valid time", z3.And(x >= 0, x < m, OKR(x), equal(e, Shape(GEOM(x)))), hints=H)
                v.ensure("united footprints are of one orbit", orbit(x) == orbit(S.src(G.row(h, z3.IntVal(0)))), hints=H)
            else:
                v.assume(z3.And(r >= 0, r < m, OKR(r)))
                y = S.rank(r)
                H = v.instances(r, y, G.gi(y), (G.gi(y), G.pos(y)))
                hh, pp = G.gi(y), G.pos(y)
                UU = core.subst(U, [(h, hh)])
                v.ensure("every valid footprint is united", z3.And(hh >= 0, hh < G.m, pp >= 0, pp < G.size(hh), equal(UU.mem.get(pp), Shape(GEOM(r)))), hints=H)
                r2 = z3.Int("r2")
                v.assume(z3.And(r2 >= 0, r2 < m, OKR(r2), orbit(r2) == orbit(r)))
                y2 = S.rank(r2)
                v.ensure("one orbit in one row", G.gi(y2) == hh, hints=H + v.instances(r2, y2, (y, y2), (y2, y)))
        V.vc(f"compute_ground_track, point method, {'dissolved' if dis else 'by orbit'}", body)

    def body_args(v):
        n, k, elev, fr, times, sat, mask = setup(v, None)
        v.assume(n >= 1)
        for kw, why in ((dict(method="disc"), "an unknown method is a value error"), (dict(method="line", crs="spice"), "the line method with spice is a value error")):
            try:
                v.call(TR.compute_ground_track, sat, times, k, elev, None, **kw)
            except SymRaise as e:
                v.ensure(why, z3.BoolVal(getattr(e, "cls", None) in (ValueError, "ValueError")))
            else:
                v.ensure(why, z3.BoolVal(False))
    V.vc("compute_ground_track, invalid options", body_args)
    line_method(V, setup)

    # ---- buffering
    def tree(v):
        install(None)
        for x in ("tatc.utils.buffer_target", "tatc.utils.buffer_footprint"):
            CONTRACTS.pop(x, None)
        MODELS[utils.transform] = lambda interp, args, kw: Tree("transform", args[0], args[1]) if isinstance(args[1], Tree) else NotImplemented
        CONTRACTS["tatc.utils.split_polygon"] = lambda interp, args, kw: Tree("split", args[0]) if isinstance(args[0], Tree) else NotImplemented
        CONTRACTS["tatc.utils.project_polygon_to_elevation"] = lambda interp, args, kw: Tree("raise", *args) if isinstance(args[0], Tree) else NotImplemented
        CONTRACTS["tatc.utils.compute_ground_velocity"] = lambda interp, args, kw: Num(z3.Function("ground_velocity", R_, R_, R_)(*[zr(x) for x in _bind(args, kw, ("altitude", "inclination"), {}).values()]))
        return Tree("geometry")

    def done():
        for x in ("split_polygon", "project_polygon_to_elevation", "compute_ground_velocity"):
            CONTRACTS.pop("tatc.utils." + x, None)

    def body_bf(v):
        g = tree(v)
        sw, elev = v.real("swath_width", ge=0), v.real("elevation")
        a, b = Transf("EPSG:4326", "X", True), Transf("X", "EPSG:4326", True)
        try:
            out = v.resolve(v.call(utils.buffer_footprint, g, a, b, sw, elev))
        finally:
            done()
        v.ensure("the geometry projected, buffered by half the swath width, projected back, split and raised to the elevation",
                 equal(out, Tree("raise", Tree("split", Tree("transform", b.transform, Tree("buffer", Tree("transform", a.transform, g), sw / 2))), elev)))
    V.vc("buffer_footprint", body_bf)

    for multi in (False, True):
        def body_bt(v, multi=multi):
            g = tree(v)
            alt, inc, fr, step, sc = v.real("altitude", gt=0), v.real("inclination"), v.real("field_of_regard", gt=0, le=180), v.real("time_step", ge=0), v.real("distance_scaling", gt=0)
            n, lo = v.int("parts", ge=1) if multi else 1, [z3.Function(f"part_bound_{k}", I_, R_) for k in range(4)]
            part = lambda j: Obj(bounds=tuple(Num(f(j)) for f in lo))
            kinds = {"multi": multi, "bounds": part(z3.IntVal(0)).bounds, "geoms": Seq(n.e, part) if multi else None}
            Tree.parts = kinds
            try:
                out = v.resolve(v.call(utils.buffer_target, g, alt, inc, fr, step, distance_scaling=sc))
            finally:
                done()
                Tree.parts = None
            d = (z3.Function("ground_velocity", R_, R_, R_)(alt.e, inc.e) * step.e + SWATH(alt.e, fr.e, ZERO) / 2) * sc.e
            a, b = Transf("EPSG:4326", "EPSG:4087", True), Transf("EPSG:4087", "EPSG:4326", True)
            half = zr(core.frac_of_float(constants.EARTH_EQUATORIAL_CIRCUMFERENCE)) * 101 / 200
            j = v.int("j", ge=0, lt=n).e if multi else z3.IntVal(0)
            globe = isinstance(out, geo.Polygon) and out.equals(geo.box(-180, -90, 180, 90)) or isinstance(out, Tree) and out.op == "globe"
            v.ensure("a part that spans more than half a turn (1% allowed) cannot be split: everything is kept", z3.Or(z3.BoolVal(bool(globe)), lo[2](j) - lo[0](j) < half))
            v.ensure("the target projected, buffered by the distance of one step plus half the swath width, projected back and split, or the globe",
                     z3.BoolVal(True) if globe else equal(out, Tree("split", Tree("transform", b.transform, Tree("buffer", Tree("transform", a.transform, g), Num(d))))))
        V.vc(f"buffer_target, {'several parts' if multi else 'one part'}", body_bt)

    # ---- choice of the UTM zone
    for found in (True, False):
        def body_utm(v, found=found):
            install(None)
            CONTRACTS.pop("tatc.analysis.track._get_utm_epsg_code", None)
            lon, lat, h, sw = v.real("lon", ge=-180, le=180), v.real("lat", ge=-90, le=90), v.real("height"), v.real("swath_width", gt=0)
            asked = []
            MODELS[TR.clip_by_rect] = lambda interp, args, kw: Disc(args[0].p, args[0].d, tuple(args[1:])) if isinstance(args[0], Disc) else NotImplemented
            MODELS[pyproj.aoi.AreaOfInterest] = lambda interp, args, kw: Obj(area=tuple(args))

            def query(interp, args, kw):
                asked.append(kw["area_of_interest"].area)
                v.ensure("zones of WGS 84", z3.BoolVal(kw.get("datum_name") == "WGS 84" and not args))
                return [Obj(code="32633"), Obj(code="32634")] if found else []
            MODELS[pyproj.database.query_utm_crs_info] = query
            DiscP = GPoint(lon, lat, h)
            out = v.resolve(v.call(TR._get_utm_epsg_code, DiscP, sw))
            d = zr(sw) / 2 / zr(core.frac_of_float(constants.EARTH_MEAN_RADIUS)) * 180 / core.PI
            north, south = lat.e + d > 84, lat.e - d < -80
            want = "EPSG:32633" if found else "EPSG:4087"
            v.ensure("polar stereographic beyond 84 N or 80 S, the first zone over the footprint otherwise", z3.And(z3.Implies(north, z3.BoolVal(out == "EPSG:5041")), z3.Implies(z3.And(z3.Not(north), south), z3.BoolVal(out == "EPSG:5042")),
                     z3.Implies(z3.Not(z3.Or(north, south)), z3.BoolVal(out == want))))
            for ar in asked:
                mn, mx = lambda a, b: z3.If(a < b, a, b), lambda a, b: z3.If(a > b, a, b)
                v.ensure("zones sought over the footprint within the globe", z3.And(*[zr(x) == y for x, y in zip(ar, (mx(lon.e - d, z3.RealVal(-180)), mx(lat.e - d, z3.RealVal(-90)), mn(lon.e + d, z3.RealVal(180)), mn(lat.e + d, z3.RealVal(90))))]))
        V.vc(f"_get_utm_epsg_code, {'zones found' if found else 'no zone'}", body_utm)


class Disc(Sym):
    """a point buffered in degrees (its bounds), perhaps cut to a rectangle."""

    def __init__(self, p, d, rect=None):
        self.p, self.d, self.rect = p, d, rect

    @property
    def bounds(self):
        x, y, d = zr(self.p.c[0]), zr(self.p.c[1]), zr(self.d)
        b = [x - d, y - d, x + d, y + d]
        if self.rect is not None:
            w, s, e, n = [zr(c) for c in self.rect]
            b = [z3.If(b[0] > w, b[0], w), z3.If(b[1] > s, b[1], s), z3.If(b[2] < e, b[2], e), z3.If(b[3] < n, b[3], n)]
        ctx.trust("shapely: bounds of a buffered point, and of it cut to the globe")
        return tuple(Num(c) for c in b)


GPoint.buffer = lambda self, d: Disc(self, d)


class Tree(Sym):
    """how a geometry was made."""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def _subst(self, p):
        return Tree(self.op, *[subst(x, p) for x in self.a])

    def _equal(self, o):
        if not isinstance(o, Tree) or o.op != self.op or len(o.a) != len(self.a):
            return z3.BoolVal(False)
        return z3.And(*[equal(x, y) for x, y in zip(self.a, o.a)])

    def buffer(self, d):
        return Tree("buffer", self, d)

    parts = None  # the shape of a buffered target

    def _shape(self, k):
        if self.op != "buffer" or Tree.parts is None:
            raise Unsupported("parts of a geometry that was not buffered")
        return Tree.parts[k]

    def _isinstance(self, c):
        return c is (geo.MultiPolygon if self._shape("multi") else geo.Polygon)

    geoms = property(lambda t: t._shape("geoms"))
    bounds = property(lambda t: t._shape("bounds"))


Transf.transform = property(lambda t: Tree("map", t.a, t.b, t.xy))


def positions(v, r):
    """the positions looked up by time, at row r."""
    return [z3.substitute_vars(f.body(), r) for f in ctx.formulas() if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I_]


def select_rows(interp, fr, ix):
    s = FSeq(fr.n, lambda j: ix.get(j), lambda j: Num(j))
    s._ensure()
    W.setdefault("selected", []).append(s)
    return tables.TFrame(s.n, {k: (lambda j, c=c: c(s.src(j))) for k, c in fr.cols.items()})


def dissolve(interp, fr, args, kw):
    if args or kw:
        r = tables._dissolve(interp, fr, args, kw)
        W.setdefault("grouped", []).append(r.groups)
        return r
    if not core.decide(fr.n > 0):
        ctx.trust("geopandas dissolve of an empty table: an empty table")
        return tables.TFrame(z3.IntVal(0), dict(fr.cols))
    ctx.trust("geopandas dissolve: one row with the union of all geometries")
    cols = {k: (lambda j, c=c: c(z3.IntVal(0))) for k, c in fr.cols.items()}
    cols["geometry"] = lambda j: tables.Union(Seq(fr.n, fr.cols["geometry"]))
    return tables.TFrame(z3.IntVal(1), cols)


# ------------------------------------------------------------------ the line method
class Pair(Sym):
    """two grouping keys, ordered one after the other."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _subst(self, p):
        return Pair(subst(self.a, p), subst(self.b, p))

    def _equal(self, o):
        return z3.And(equal(self.a, o.a), equal(self.b, o.b)) if isinstance(o, Pair) else z3.BoolVal(False)

    def __lt__(self, o):
        return SBool(z3.Or(zb(self.a < o.a), z3.And(equal(self.a, o.a), zb(self.b < o.b))))


class GLine(Sym):
    """a line through the vertices f(0..n)."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def _subst(self, p):
        return GLine(z3.substitute(self.n, *p), lambda j: seq._late(self.f, j, p))

    def _ite(self, c, o, rev):
        if not isinstance(o, GLine):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return GLine(z3.If(c, a.n, b.n), lambda j: tuple(core.ite(c, x, y) for x, y in zip(a.f(j), b.f(j))))

    @property
    def coords(self):
        return Seq(self.n, self.f)


class Seg(Sym):
    """segment i of the line of group h."""

    def __init__(self, h, i):
        self.h, self.i = h, i

    def _subst(self, p):
        return Seg(z3.substitute(self.h, *p), z3.substitute(self.i, *p))

    def _isinstance(self, c):
        return c is geo.LineString


class UShape(Shape):
    """union of shapes."""

    def __init__(self, e, mem):
        self.e, self.mem = e, mem

    def _subst(self, p):
        return UShape(z3.substitute(self.e, *p), subst(self.mem, p))

    def _ite(self, c, o, rev):
        return NotImplemented


class Stop(BaseException):
    """the step has been examined."""


BUFSEG = z3.Function("buffered_segment", I_, I_, R_, R_, I_, I_)
SWID, VALID_T = fR("swath_at", I_), z3.Function("valid_time", I_, B_)


def line_method(V, setup):
    def vertices(x):
        if isinstance(x, list):
            x = seq.of_list([p if isinstance(p, GPoint) else GPoint(*p) for p in x]) if not any(isinstance(p, Sym) and not isinstance(p, GPoint) for p in x) else None
        if not isinstance(x, Seq):
            raise Unsupported("vertices of a line")
        def f(j):
            p = settle(x.get(zi(j)))
            return tuple(p.c) if isinstance(p, GPoint) else tuple(p)
        return GLine(x.n, f)

    def world(v, mk):
        n, k, elev, fr, times, sat, mask = setup(v, mk)
        v.assume(n >= 1)
        v.assume(PERIOD > 0)
        a, y = seq.gvar("a"), z3.Int("some_valid")
        v.assume(z3.And(y >= 0, y < n, VALID_T(y)))
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(LON(a) >= -180, LON(a) <= 180)), patterns=[LON(a)]))
        keys = {}
        del tables.RUNNING[:]

        def c_track(interp, args, kw):
            d = _bind(args, kw, ("satellite", "times", "instrument_index", "elevation", "mask"), dict(instrument_index=0, elevation=0, mask=None))
            core.oblig("contract: orbit track of the same request, unmasked", z3.And(z3.BoolVal(d["satellite"] is sat and d["times"] is times and d["mask"] is None and not set(d) - {"satellite", "times", "instrument_index", "elevation", "mask"}), equal(d["instrument_index"], k), equal(d["elevation"], elev)))
            return tables.TFrame(n, dict(time=lambda j: STime(TM(j)), satellite=lambda j: "sat", instrument=lambda j: "inst", swath_width=lambda j: Num(SWID(j)), valid_obs=lambda j: SBool(VALID_T(j)),
                                         geometry=lambda j: GPoint(Num(LON(j)), Num(LAT(j)), Num(HGT(j)))), "range")

        def grouping(fr, by):
            key = tuple(id(fr.cols[x]) for x in by)
            if key not in keys:
                a, b = [fr.cols[x] for x in by]
                keys[key] = (tables.Grouping(fr.n, lambda j: Pair(a(j), b(j))), fr)
            return keys[key][0]

        def groupby(interp, fr, args, kw):
            by = args[0] if args else kw.get("by")
            if not isinstance(by, list) or len(by) != 2 or len(args) > 1 or set(kw) - {"by"}:
                raise Unsupported("groupby options")
            g = grouping(fr, by)
            s = Seq(g.m, lambda h: ((fr.cols[by[0]](g.row(h, z3.IntVal(0))), fr.cols[by[1]](g.row(h, z3.IntVal(0)))), tables.TFrame(g.size(h), {c: (lambda j, f=f: f(g.row(h, zi(j)))) for c, f in fr.cols.items()})))
            s.grouping, s.by = g, by
            return s

        def diss(interp, fr, args, kw):
            by = args[0] if args else kw.get("by")
            if not isinstance(by, list):
                return dissolve(interp, fr, args, kw)
            if len(by) != 2 or len(args) > 1 or set(kw) - {"by"}:
                raise Unsupported("dissolve options")
            g = grouping(fr, by)
            ctx.trust("geopandas dissolve by two keys: one row per distinct pair in order, the other columns of its first row")
            return tables.TFrame(g.m, {c: (lambda h, f=f: f(g.row(zi(h), z3.IntVal(0)))) for c, f in fr.cols.items() if c not in by})

        def mean(interp, s, args, kw):
            if args or kw:
                raise Unsupported("mean options")
            x = Num(core.fresh("mean", "real"))
            W.setdefault("means", []).append((s, x))
            return x
        MODELS[TR.LineString] = lambda interp, args, kw: vertices(args[0])
        from props import P20
        MODELS[np.cumsum], MODELS[np.insert] = P20._cumsum, P20._insert
        METHOD_MODELS[(tables.TFrame, "groupby")] = groupby
        METHOD_MODELS[(tables.TFrame, "dissolve")] = diss
        tables.stub(Seq, "mean")
        METHOD_MODELS[(Seq, "mean")] = mean
        CONTRACTS["tatc.analysis.track.collect_orbit_track"] = c_track
        return n, k, elev, times, sat, mask

    def clean():
        LOOP_RULES.pop("*", None)
        CONTRACTS.pop("tatc.analysis.track.collect_orbit_track", None)
        METHOD_MODELS[(tables.TFrame, "groupby")] = tables._groupby
        METHOD_MODELS[(tables.TFrame, "dissolve")] = dissolve
        METHOD_MODELS.pop((Seq, "mean"), None)

    def loop_of(it, ran):
        if ran:
            raise Unsupported("a second loop")
        if not hasattr(it, "grouping") or len(W.get("selected", [])) != 1:
            raise Unsupported("a loop over something else")
        ran.append(it)
        return it.grouping, W["selected"][0]
    orbit = lambda x: z3.ToInt((TM(x) - TM(0)) / PERIOD)

    # -- 1. the groups: maximal runs of valid times of one orbit
    def body_groups(v):
        n, k, elev, times, sat, mask = world(v, None)
        ran = []

        def rule(interp, st, it, env):
            G, S = loop_of(it, ran)
            h, a, b, u = z3.Ints("h a b u")
            v.assume(z3.And(h >= 0, h < G.m, a >= 0, a < b, b < G.size(h)))
            ya, yb = G.row(h, a), G.row(h, b)
            xa, xb = S.src(ya), S.src(yb)
            H = v.instances(h, a, b, (h, a), (h, b), ya, yb, (ya, yb), xa, xb, (h, z3.IntVal(0)))
            v.ensure("members of a group are valid times in order", z3.And(xa >= 0, xa < xb, xb < n, VALID_T(xa), VALID_T(xb)), hints=H)
            v.ensure("of one orbit", orbit(xa) == orbit(xb), hints=H)
            cs = [x[1] for x in tables.RUNNING if x[0] == "cumsum"]
            if len(cs) != 1:
                raise Unsupported("runs of another shape")
            C = cs[0]
            v.lemma("of one run", z3.And(xa >= 0, xb < n, xa < xb, C(xa) == C(xb), VALID_T(xa)), hints=H)
            v.assume(z3.And(xa < u, u < xb))
            w = v.crossing(xa, u, lambda q: z3.Not(VALID_T(q)))
            v.ensure("with no invalid time between them", VALID_T(u), hints=v.instances(w, (xa, w - 1), (w, xb), (xa, w)))
            # every valid time that continues a run of its orbit is in the same group
            c = z3.Int("c")
            v.assume(z3.And(c >= 0, c + 1 < n, VALID_T(c), VALID_T(c + 1), orbit(c) == orbit(c + 1)))
            yc, yd = S.rank(c), S.rank(c + 1)
            v.ensure("successive valid times of an orbit are in one group", z3.And(G.gi(yc) == G.gi(yd), G.gi(yc) >= 0, G.gi(yc) < G.m, G.row(G.gi(yc), G.pos(yc)) == yc, S.src(yc) == c),
                     hints=v.instances(c, c + 1, yc, yd, (yc, yd)))
            raise Stop()
        LOOP_RULES["*"] = rule
        try:
            v.call(TR.compute_ground_track, sat, times, k, elev, None, "EPSG:4087", "line", False)
        except Stop:
            return
        finally:
            clean()
        raise Unsupported("no loop over groups")
    V.vc("compute_ground_track, line method: groups", body_groups)

    # -- 2. the line and the width of one group
    def body_step(v):
        n, k, elev, times, sat, mask = world(v, None)
        ran, info = [], {}
        west = z3.Bool("runs west")

        def split_(interp, args, kw):
            line, cut = args
            if not isinstance(line, GLine) or not isinstance(cut, GLine):
                raise Unsupported("split of another kind")
            G, S, h = info["G"], info["S"], info["h"]
            i = v.int("vertex", ge=0).e
            K = G.size(h)
            v.ensure("the line to cut has a vertex per time", line.n == K)
            v.assume(i + 1 < K)
            p, q = line.f(i), line.f(i + 1)
            x, y = S.src(G.row(h, i)), S.src(G.row(h, i + 1))
            H = v.instances(i, i + 1, i - 1, (h, i), (h, i + 1), G.row(h, i), G.row(h, i + 1), x, y) 
            p0 = line.f(z3.IntVal(0))
            turn = (zr(q[0]) - LON(y)) - (zr(p[0]) - LON(x))
            H0 = v.instances((h, z3.IntVal(0)), z3.IntVal(0))
            v.ensure("the line starts at the first place below the satellite", zr(p0[0]) == LON(S.src(G.row(h, z3.IntVal(0)))), hints=H0)
            v.ensure("vertices of the line differ from the places below the satellite by whole turns", z3.And(z3.Or(*[turn == d for d in (-360, 0, 360)]), zr(p[1]) == LAT(x), zr(p[2]) == zr(elev), zr(q[1]) == LAT(y), zr(q[2]) == zr(elev)), hints=H)
            v.ensure("consecutive vertices are less than half a turn apart", z3.And(zr(q[0]) - zr(p[0]) <= 180, zr(q[0]) - zr(p[0]) >= -180), hints=H)
            c0, c1 = cut.f(z3.IntVal(0)), cut.f(z3.IntVal(1))
            v.ensure("contract: cut along a meridian", z3.And(cut.n == 2, zr(c0[0]) == zr(c1[0]), zr(c0[1]) <= -90, zr(c1[1]) >= 90))
            c = zr(c0[0])
            # domain: the group turns past the antimeridian in one direction
            a, b = seq.gvar("a"), seq.gvar("b")
            U = lambda j: zr(line.f(j)[0])
            w0 = z3.Int("western_vertex")
            v.assume(z3.If(west, z3.And(w0 >= 0, w0 < K, U(w0) < -180, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < K), z3.And(U(a) >= -540, U(a) <= 180)), patterns=[S.src(G.row(h, a))])),
                           z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < K), z3.And(U(a) > -180, U(a) <= 540)), patterns=[S.src(G.row(h, a))])))
            ex = seq.EXTREMA[-1:]
            src = lambda j: S.src(G.row(h, j))
            v.lemma("contract: the cut lies on the side passed", c == z3.If(west, z3.RealVal(-180), z3.RealVal(180)),
                    hints=v.instances(*[t for j in [w0] + ex for t in (j, j - 1, (h, j), G.row(h, j), src(j))]))
            N, M_, P_, side = core.fresh("pieces", "int"), z3.Function("piece_size", I_, I_), [fR(f"piece_{z}", I_, I_) for z in "xyz"], z3.Function("piece_before", I_, B_)
            ctx.trust("shapely split: pieces of the line, each on one side of the cutting line, within the bounds of the line")
            core.assume(N >= 1)
            e = P_[0](a, b)
            core.assume(z3.ForAll([a, b], z3.And(z3.If(side(a), e <= c, e >= c), z3.If(west, z3.And(e >= -540, e <= 180), z3.And(e >= -180, e <= 540))), patterns=[e]))
            info.update(N=N, M=M_, P=P_)
            return Obj(geoms=Seq(N, lambda j: GLine(M_(zi(j)), lambda i_: tuple(Num(f(zi(j), zi(i_))) for f in P_))))
        MODELS[TR.split] = split_

        def rule(interp, st, it, env):
            G, S = loop_of(it, ran)
            h = z3.Int("h")
            v.assume(z3.And(h >= 0, h < G.m))
            info.update(G=G, S=S, h=h)
            lists = {nm: x for nm, x in env.vars.items() if isinstance(x, list) and not x}
            interp.assign(st.target, it.get(h), env)
            try:
                interp.block(st.body, env)
            except ContinueX:
                pass
            got = [x for x in (env.vars[nm] for nm in lists) if isinstance(x, list) and x]
            K = G.size(h)
            place = lambda i: (LON(S.src(G.row(h, i))), LAT(S.src(G.row(h, i))), zr(elev))
            wid = [x for x in got if len(x) == 1 and isinstance(x[0], Num)]
            seg = [x for x in got if len(x) == 1 and isinstance(x[0], (list, Seq))]
            if len(wid) != 1 or len(seg) != 1:
                raise Unsupported("a step of another shape")
            ms = [s for s, x in W.get("means", []) if z3.is_true(z3.simplify(x.e == wid[0][0].e))]
            if len(ms) != 1:
                raise Unsupported("width of another kind")
            i = v.int("member", ge=0).e
            v.assume(i < K)
            v.ensure("the width is the mean over the group's times", z3.And(ms[0].n == K, equal(ms[0].get(i), Num(SWID(S.src(G.row(h, i)))))))
            sg = seg[0][0]
            if isinstance(sg, list) and len(sg) == 1 and isinstance(sg[0], GPoint):
                v.ensure("one time: the place below the satellite", z3.And(K == 1, *[zr(a) == b for a, b in zip(sg[0].c, place(z3.IntVal(0)))]))
            elif isinstance(sg, list) and len(sg) == 1 and isinstance(sg[0], GLine):
                q = sg[0].f(i)
                v.ensure("no crossing: the line through the places below the satellite", z3.And(sg[0].n == K, *[zr(a) == b for a, b in zip(q, place(i))]))
                v.assume(i + 1 < K)
                q2 = sg[0].f(i + 1)
                v.ensure("no crossing: consecutive vertices are less than half a turn apart", z3.And(zr(q2[0]) - zr(q[0]) < 180, zr(q2[0]) - zr(q[0]) > -180), hints=v.instances(i))
            elif isinstance(sg, Seq) and "N" in info:
                kk, a, b = v.int("piece", ge=0).e, v.int("va", ge=0).e, v.int("vb", ge=0).e
                v.assume(z3.And(kk < info["N"], a < info["M"](kk), b < info["M"](kk)))
                L = settle(sg.get(kk))
                if not isinstance(L, GLine):
                    raise Unsupported("segments of another kind")
                A, B = L.f(a), L.f(b)
                pa, pb = [f(kk, a) for f in info["P"]], [f(kk, b) for f in info["P"]]
                H = v.instances((kk, a), (kk, b), a, b)
                v.ensure("crossing: every piece once", z3.And(sg.n == info["N"], L.n == info["M"](kk)))
                v.ensure("crossing: a piece is moved as a whole, by whole turns", z3.And(zr(A[0]) - pa[0] == zr(B[0]) - pb[0], z3.Or(*[zr(A[0]) - pa[0] == d for d in (-360, 0, 360)]), zr(A[1]) == pa[1], zr(A[2]) == pa[2]), hints=H)
                v.ensure("crossing: into range", z3.And(zr(A[0]) >= -180, zr(A[0]) <= 180), hints=H)
            else:
                raise Unsupported("segments of another kind")
            raise Stop()
        LOOP_RULES["*"] = rule
        try:
            v.call(TR.compute_ground_track, sat, times, k, elev, None, "EPSG:4087", "line", False)
        except Stop:
            return
        finally:
            clean()
        raise Unsupported("no loop over groups")
    V.vc("compute_ground_track, line method: the line of one group", body_step)

    # -- 3. buffering and the table
    for mk in (None, "polygon", "frame"):
        for dis in (False, True):
            def body_table(v, mk=mk, dis=dis):
                n, k, elev, times, sat, mask = world(v, mk)
                ran, info = [], {}
                NSEG, MW = z3.Function("segments_of", I_, I_), fR("mean_width_of", I_)

                def rule(interp, st, it, env):
                    G, S = loop_of(it, ran)
                    info.update(G=G, S=S)
                    # the two lists by what a step appends to them (established by the step contract)
                    lists = [nm for nm, x in env.vars.items() if isinstance(x, list) and not x]
                    names = {c.func.value.id: c for s_ in ast.walk(st) if isinstance(s_, ast.Expr) for c in [s_.value] if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name)}
                    wid = [nm for nm in lists if nm in names and not isinstance(names[nm].args[0], (ast.List, ast.ListComp))]
                    seg = [nm for nm in lists if nm in names and isinstance(names[nm].args[0], (ast.List, ast.ListComp))]
                    if len(wid) != 1 or len(seg) != 1:
                        raise Unsupported("a loop of another shape")
                    env.vars[wid[0]] = Seq(G.m, lambda h: Num(MW(zi(h))))
                    env.vars[seg[0]] = Seq(G.m, lambda h: Seq(NSEG(zi(h)), lambda i: Seg(zi(h), zi(i))))
                    return True

                def footbuf(interp, args, kw):
                    d = _bind(args, kw, ("geometry", "to_crs", "from_crs", "swath_width", "elevation"), {})
                    g, a, b = d["geometry"], d["to_crs"], d["from_crs"]
                    if not isinstance(g, Seg) or not isinstance(a, Transf) or not isinstance(b, Transf):
                        raise Unsupported("buffer of another shape")
                    core.oblig("line: projected from longitude/latitude and back", z3.And(z3.BoolVal(a.a == "EPSG:4326" and b.b == "EPSG:4326" and a.xy and b.xy), crs_id(a.b) == crs_id(b.a)))
                    return Shape(BUFSEG(g.h, g.i, zr(d["swath_width"]), zr(d["elevation"]), crs_id(a.b)))
                old = CONTRACTS["tatc.utils.buffer_footprint"]
                CONTRACTS["tatc.utils.buffer_footprint"] = footbuf
                uu = MODELS[TR.unary_union]
                MODELS[TR.unary_union] = lambda interp, args, kw: UShape(tables.fresh_fn("union", I_)(), args[0]) if isinstance(args[0], Seq) and isinstance(args[0].get(seq.gvar("z")), Shape) else uu(interp, args, kw)
                LOOP_RULES["*"] = rule
                try:
                    out = v.resolve(v.call(TR.compute_ground_track, sat, times, k, elev, mask, "EPSG:4087", "line", dis))
                finally:
                    clean()
                    CONTRACTS["tatc.utils.buffer_footprint"] = old
                if not ran or not isinstance(out, tables.TFrame):
                    raise Unsupported("another kind of table")
                G, S = info["G"], info["S"]
                fs = [s for s in W["filters"]]
                if len(fs) != (1 if mk else 0):
                    raise Unsupported("other filters")
                r, i = z3.Int("row"), z3.Int("i")
                if dis and z3.is_int_value(out.n) and out.n.as_long() == 0:
                    v.ensure("no row only where no group meets the mask", (fs[0].n if mk else G.m) == 0)
                    return
                if dis:
                    U = out.cols["geometry"](z3.IntVal(0))
                    if not isinstance(U, tables.Union):
                        raise Unsupported("another geometry")
                    v.ensure("one row in all", out.n == 1)
                    nrows, geom = U.mem.n, U.mem.get
                else:
                    nrows, geom = out.n, out.cols["geometry"]
                v.ensure("a row per group that meets the mask", nrows == (fs[0].n if mk else G.m))
                v.assume(z3.And(r >= 0, r < nrows))
                h = fs[0].src(r) if mk else r
                g = settle(geom(r))
                if mk:
                    if not isinstance(g, GOp) or g.op != "clip":
                        raise Unsupported("another geometry")
                    v.ensure("cut to the mask", z3.BoolVal(g.by is mask))
                    g = settle(g.g)
                if not isinstance(g, UShape):
                    raise Unsupported("another geometry")
                H = v.instances(r, h)
                v.assume(z3.And(i >= 0, i < NSEG(h)))
                v.ensure("the union of the buffered segments of the group, by its mean width", z3.And(h >= 0, h < G.m, g.mem.n == NSEG(h), equal(g.mem.get(i), Shape(BUFSEG(h, i, MW(h), zr(elev), crs_id("EPSG:4087"))))), hints=H)
                if mk:
                    q = z3.Int("q")
                    v.assume(z3.And(q >= 0, q < G.m, zb(fs[0].cond(q)) if hasattr(fs[0], "cond") else zb(fs[0].c(q))))
                    v.ensure("no group that meets the mask missing", z3.And(fs[0].rank(q) >= 0, fs[0].rank(q) < nrows, fs[0].src(fs[0].rank(q)) == q), hints=v.instances(q))
            V.vc(f"compute_ground_track, line method: table, mask {mk}, {'dissolved' if dis else 'by orbit'}", body_table)
