"""Random generation of abstract NDM messages (seeded, repository-independent).

Profiles
  kvn=True   : message is expressible in KVN (units absent on tabular data lines,
               rotation components follow EULER_ROT_SEQ, single-line comments, ...)
  kvn=False  : the XML-only freedom is used as well
"""
from datetime import datetime, timedelta
from decimal import Decimal

from .schema import CLASSES, ENUMS, TYPES, Node, fields

WORDS = (
    "ISS EARTH MARS ICRF TEME UTC SGP4 DSS-26 X 2016-033C 1998-067-A J2000 ROSETTA "
    "NUSAT-2 EGM-96:36D36O JPL/20200101-001 a B2 Zvezda O'Neil foo_bar 42 0 1.50 -7 "
    "A,B;C #1 50% @home ~ ^ * + | ! ? \"q\" (x) {y} $5 \\ back"
).split()
NONASCII = ["é", "Å", "日本", "Ω", "ü-1", "Ж", "€", "😀", "ß", "Iñ", "\u00b5m",
            # not invariant under normalisation, case folding or "cleaning"
            "e\u0301", "\u212b", "\u2126", "\ufb01x", "x\u00ady", "x\ufeffy", "x\u200dy", "\u0130i", "\uff11\uff12", "x\u202ey", "\u00b2", "\ud55c\uae00"]
XMLSPEC = ["&", "<", ">", "a&b", "<x>", "]]>", "&amp;", "&#65;", "--", "<!--"]
MARKUP = ['<?xml version="1.0" encoding="UTF-8"?>', '<opm id="CCSDS_OPM_VERS" version="2.0">', "</ndm>", "</COMMENT>", "<!-- x -->", "<![CDATA[", "&lt;",
          '<!DOCTYPE opm [<!ENTITY x "y">]>', "<COMMENT/>", '<?xml version="1.0" encoding="latin-1" standalone="yes"?>', 'xsi:schemaLocation="a b"', 'units="km"',
          '<A xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">', "&#x41;", "&apos;", "Type", "aemType", "<EPOCH>"]
SPACES = ["\u00a0", "\u2028", "\u2029", "\u0085", "\u3000", "\u200b", "\u2003"]
EQ = ["=", "a=b", "x = y", "==", "k= v"]


KEYWORDS = ("META_START META_STOP DATA_START DATA_STOP COVARIANCE_START COVARIANCE_STOP COMMENT EPOCH "
            "OBJECT OBJECT1 USER_DEFINED_X CCSDS_OPM_VERS None True nan inf FIRST LAST 1e5 2020-01-01T00:00:00").split()


# what real messages hold under these keywords (a change may be about one of them)
_FRAMES = ("EME2000 GCRF GRC ICRF ITRF-93 ITRF-97 ITRF2000 ITRFxxxx J2000 MCI TDR TEME TOD TNW RTN RSW LVLH EFG SC_BODY_1 SC_BODY_A ACTUATOR_1 "
           "CSS_1 DSS_1 GYRO_1 INSTRUMENT_A STARTRACKER_1 NADIR LOCAL_ORBITAL ORB_FRAME").split()
_TIMES = "UTC TAI TT TDB TCB TCG GPS GMST GLONASS UT1 MET MRT SCLK TDT".split()
_CENTERS = ["EARTH", "SUN", "MOON", "MARS", "VENUS", "MARS BARYCENTER", "EARTH BARYCENTER", "SOLAR SYSTEM BARYCENTER", "STS 106", "Earth"]
_OBJECTS = ["ISS", "MARS GLOBAL SURVEYOR", "EUTELSAT W4", "GODZILLA 5", "TEST_SAT", "SATELLITE A", "FENGYUN 1C DEB", "STARLINK-1007", "GOES 9", "UNKNOWN", "NONE", "N/A"]
_IDS = ["1996-062A", "2000-028A", "1998-999A", "1998-067-A", "1997-030E", "2016-033", "25544", "00005", "1999-025AA", "UNKNOWN", "T0001"]
_MODELS = ["EGM-96: 36D 36O", "JACCHIA 70 DCA", "NRLMSISE-00", "MSIS-86", "NONE", "MOON, SUN", "SUN,MOON", "ESR", "YES", "NO", "CANNON_BALL"]
_STATIONS = ["DSS-25", "DSS-14", "yyyy-nnnA", "2003-014A", "NORTH", "OUAGADOUGOU", "SPACECRAFT 1", "TDRS-A", "34"]
_EPHS = ["EPHEMERIS SATELLITE A", "NONE", "eph.bsp", "SatEph", "S"]
VOCAB = {
    **{k: _FRAMES for k in ("REF_FRAME REF_FRAME_A REF_FRAME_B INERTIA_REF_FRAME SPIN_FRAME_A SPIN_FRAME_B EULER_FRAME_A EULER_FRAME_B "
                            "Q_FRAME_A Q_FRAME_B MAN_REF_FRAME COV_REF_FRAME IMPACT_REF_FRAME").split()},
    "TIME_SYSTEM": _TIMES, "CENTER_NAME": _CENTERS, "ORBIT_CENTER": _CENTERS, "OBJECT_NAME": _OBJECTS, "OBJECT_ID": _IDS,
    "OBJECT_DESIGNATOR": _IDS, "INTERNATIONAL_DESIGNATOR": _IDS, "CATALOG_NAME": ["SATCAT", "ESA SATCAT", "NONE"],
    "ORIGINATOR": ["JSPOC", "NASA/JPL", "NASA", "ESA", "GSFC", "CNES", "JAXA", "USA", "SDC", "SPACE-TRACK", "18 SPCS"],
    "MESSAGE_FOR": ["SATELLITE A", "ALL"], "MESSAGE_ID": ["201113719185", "NASA-1", "0"], "PREVIOUS_MESSAGE_ID": ["201113719184", "ESA/20180421-006"],
    "INTERPOLATION": ["HERMITE", "LINEAR", "LAGRANGE"], "INTERPOLATION_METHOD": ["HERMITE", "LINEAR", "LAGRANGE"],
    "MEAN_ELEMENT_THEORY": ["SGP/SGP4", "SGP4", "SGP4-XP", "DSST", "USM", "SGP"], "CLASSIFICATION_TYPE": ["U", "C", "S", "T"],
    "GRAVITY_MODEL": _MODELS, "ATMOSPHERIC_MODEL": _MODELS, "N_BODY_PERTURBATIONS": _MODELS, "SOLAR_RAD_PRESSURE": _MODELS, "EARTH_TIDES": _MODELS,
    "SOLAR_FLUX_PREDICTION": ["STOCHASTIC", "PREDICTED: MLLRT"], "COLLISION_PROBABILITY_METHOD": ["FOSTER-1992", "ALFANO-2005", "UNKNOWN", "CHAN-1997"],
    "EPHEMERIS_NAME": _EPHS, "TRANSMIT_BAND": list("SXLC") + ["Ka", "Ku", "UHF", "GREEN"], "RECEIVE_BAND": list("SXLC") + ["Ka", "Ku", "UHF", "GREEN"],
    "DATA_TYPES": ["RECEIVE_FREQ", "RANGE,DOPPLER_INSTANTANEOUS", "TRANSMIT_FREQ_1, TRANSMIT_FREQ_RATE_1", "ANGLE_1,ANGLE_2"], "TRACK_ID": ["20190918_1200135-0001", "1"],
    **{"PARTICIPANT_%d" % i: _STATIONS for i in range(1, 6)}, **{"EPHEMERIS_NAME_%d" % i: _EPHS for i in range(1, 6)},
    "OPERATOR_EMAIL": ["JOHN.DOE@SOMEWHERE.NET"], "OPERATOR_PHONE": ["+49615130312", "1234567890"], "OPERATOR_CONTACT_POSITION": ["OSA", "CARA"],
    "OPERATOR_ORGANIZATION": ["INTELSAT", "NASA"], "OBJECT_OWNER": ["ESA", "UNKNOWN"], "OBJECT_OPERATOR": ["ESA", "NONE"],
    "HAZARDOUS_SUBSTANCES": ["NONE", "Hydrazine, UNKNOWN"], "DRAG_PARAMETERS_SOURCE": ["OD", "DELTA_V"],
}


class Gen:
    def __init__(self, rng, kvn=True, fill=None, nonascii=True, xmlspec=True, eq=True,
                 maxlist=3, comments=True, epoch_wild=True, units=None, lower=True,
                 brackets=True, sizes=None, force=None, values=None, pcom=None, longtext=0.02, empty=None, vocab=True):
        self.r = rng
        self.kvn = kvn
        self.fill = rng.choice([0.0, 0.3, 0.6, 0.9, 1.0]) if fill is None else fill
        self.nonascii, self.xmlspec, self.eq = nonascii, xmlspec, eq
        self.maxlist = maxlist
        self.comments = comments
        self.pcom = rng.choice([0.0, 0.2, 0.5, 0.9]) if comments else 0
        if pcom is not None:
            self.pcom = pcom
        # "Class.field" -> present? / lexical value: the directed part of a workload
        self.force, self.values = force or {}, values or {}
        self.longtext = longtext
        self.vocab = vocab
        self.empty = rng.choice([0, 0, 0, 0.1]) if empty is None else empty
        self.epoch_wild = epoch_wild
        self.units = rng.choice([0.0, 0.5, 1.0, 1.0]) if units is None else units
        self.lower = lower
        self.brackets = brackets
        self.sizes = sizes or {}
        self.uid = 0
        self.epochs = []
        # data in regular steps of time (seconds), or at any time
        self.step = rng.choice([0, 0, 0, 0, 0, 1, 60, 240, 86400])
        self.relative = self.epoch_wild and rng.random() < 0.1
        self.again_p = rng.choice([0.0, 0.0, 0.15, 0.5])
        self.seen = {}

    # ---- leaves -----------------------------------------------------------
    def word(self):
        r = self.r
        x = r.random()
        if x < 0.08 and self.nonascii:
            return r.choice(NONASCII)
        if x < 0.16 and self.xmlspec:
            return r.choice(XMLSPEC)
        if x < 0.20 and self.eq:
            return r.choice(EQ)
        if x < 0.23 and self.brackets:
            return r.choice(["[a]", "[", "]", "[km]", "x[1]"])
        return r.choice(WORDS)

    def text(self, maxw=4):
        r = self.r
        self.uid += 1
        if self.longtext and r.random() < self.longtext:
            maxw = r.choice([12, 30, 120])
        ws = [self.word() for _ in range(r.randint(1, maxw))]
        if r.random() < 0.04:
            ws.insert(0, r.choice(KEYWORDS))
        elif self.xmlspec and r.random() < 0.01:
            ws.insert(r.randrange(len(ws) + 1), r.choice(MARKUP))
        if r.random() < 0.5:
            # a unique marker makes misplacement observable
            ws.insert(r.randrange(len(ws) + 1), "u%d" % self.uid)
        s = ("  " if r.random() < 0.03 else " ").join(ws)
        if self.nonascii and len(ws) > 1 and r.random() < 0.04:
            # white space and separators of Unicode are ordinary text inside a value
            s = s.replace(" ", r.choice(SPACES), 1)
        if self.empty and r.random() < self.empty:
            return ""
        if self.kvn:
            s = s.strip()
            if self.brackets and r.random() < 0.03:
                # text that looks like a number with a unit
                s = r.choice(["42", "7", "1.5", "-3e2", "nan", "INF", "1_0", "0"]) + r.choice([" ", "", "   "]) + \
                    r.choice(["[a]", "[b c]", "[km]", "[A] [B]", "[x] y", "[]", "[km/s]"])
            elif self.eq and r.random() < 0.01:
                s = "= " + s
            elif r.random() < 0.03:
                # tabs within a value; marks that look like nothing, at its ends
                if r.random() < 0.5:
                    s = s.replace(" ", r.choice(["\t", "\t\t", " \t "]), 1)
                elif self.nonascii:
                    m = r.choice(["\u200b", "\ufeff", "\u2060", "\u200e"])
                    s = r.choice([m + s, s + m, m + s + m])
        elif r.random() < 0.04:
            # XML keeps the white space of its texts, over any number of lines
            s = s.replace(" ", r.choice(["\n", "\n    ", "\t", "  ", "\n\n", " \n"]), r.randint(1, 3))
            if r.random() < 0.5:
                s = r.choice(["", " ", "\n    ", "\t"]) + s + r.choice(["", " ", "\n  ", "\t"])
        return s

    def comment(self):
        r = self.r
        self.uid += 1
        if self.empty and r.random() < self.empty:
            return ""
        if r.random() < 0.15:
            t = r.choice([
                "OBJECT_NAME = FAKE", "EPOCH = 2020-01-01T00:00:00", "META_START", "DATA_STOP",
                "2020-01-01T00:00:00 1 2 3 4 5 6", "CCSDS_OPM_VERS = 2.0", "X = 1 [km]", "[deg]",
                "COMMENT nested", "COMMENT", "USER_DEFINED_X = 1", "1.0 2.0 3.0", "-"])
            if self.xmlspec and r.random() < 0.3:
                # nor do texts that look like parts of an XML document
                t = r.choice(MARKUP)
            return t + " c%d" % self.uid if r.random() < 0.7 else t
        if r.random() < 0.02:
            # in KVN a comment of this kind is written behind another equals sign
            return r.choice(["= c%d", "=c%d", "== c%d", "= = c%d", "=", "=== c%d ==="]).replace("%d", str(self.uid))
        return ("c%d " % self.uid + self.text(6)).strip(" " if self.kvn else "")

    def epoch(self, table=True):
        """an epoch; outside of tables also the rarer forms of the schema's pattern"""
        r = self.r
        if self.epoch_wild and r.random() < (0.04 if table else 0.06):
            return r.choice(["12.5", "7", "1234", "12345.75", "-3600.25", "+0.1", "0", "86400", "12020-02-03T01:02:03", "-0044-03-15T00:00:00",
                             "2020-01-01T00:00:00.", "1.5000000000000000000001"])
        if self.epochs and r.random() < self.again_p:
            # several lines or items of one and the same time
            return r.choice(self.epochs[-4:])
        if table and self.step and r.random() < 0.95:
            self.ticks = getattr(self, "ticks", -1) + 1
            if self.relative:
                # seconds from some other time
                e = "%s%.1f" % (r.choice(["", "", "+"]), self.step * self.ticks)
            else:
                e = (datetime(2003, 12, 31, 23, 0) + timedelta(seconds=self.step * self.ticks)).isoformat()
            self.epochs.append(e)
            return e
        e = self.new_epoch()
        self.epochs.append(e)
        return e

    def new_epoch(self):
        r = self.r
        y = r.choice([1957, 1999, 2000, 2006, 2020, 2024, 2099, 1801, 2101, 9999, 1])
        if r.random() < 0.3:
            d = "%04d-%03d" % (y, r.randint(1, 365))
        else:
            d = "%04d-%02d-%02d" % (y, r.randint(1, 12), r.randint(1, 28))
        t = "T%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 60))
        if r.random() < 0.1:
            t = r.choice(["T00:00:00", "T12:00:00", "T23:59:59", "T23:59:60", "T11:58:55"])
        fr = r.choice(["", "", ".0", ".5", ".123456", ".000000000001", "." + str(r.randint(0, 999999)), ".%020d" % r.randint(0, 10**20 - 1) if r.random() < 0.3 else ".000"])
        z = r.choice(["Z", "Z", "+01:00", "-11:30"]) if self.epoch_wild and r.random() < 0.15 else ""
        return d + t + fr + z

    def decimal(self, f):
        r = self.r
        lo = f.get("min_inclusive", f.get("min_exclusive"))
        hi = f.get("max_inclusive", f.get("max_exclusive"))
        lo = None if lo is None else Decimal(lo)
        hi = None if hi is None else Decimal(hi)

        def ok(s):
            d = Decimal(s)
            if "min_inclusive" in f and d < Decimal(f["min_inclusive"]): return False
            if "min_exclusive" in f and d <= Decimal(f["min_exclusive"]): return False
            if "max_inclusive" in f and d > Decimal(f["max_inclusive"]): return False
            if "max_exclusive" in f and d >= Decimal(f["max_exclusive"]): return False
            return True

        for _ in range(40):
            k = r.randrange(14)
            if k == 0: s = "0"
            elif k == 1: s = r.choice(["0.0", "0.000", "-0.0", "0E-10", "1", "-1", "1.0", "100.0", "90", "180.0", "270", "360", "359.9999",
                                        "-90", "-180", "45.0", "0.5", "1000", "0.001", "-0.001", "86400", "398600.4415", "6378.137", "1e-8", "999999.999"])
            elif k == 2: s = str(r.randint(-9, 9))
            elif k == 3: s = "%d.%06d" % (r.randint(-99999, 99999), r.randint(0, 999999))
            elif k == 4: s = "%s%d.%d%s%s%02d" % (r.choice(["", "-"]), r.randint(0, 9), r.randint(0, 10**15), r.choice("eE"), r.choice(["-", "+", ""]), r.randint(0, 12))
            elif k == 5: s = "%s%d.%s" % (r.choice(["", "-"]), r.randint(0, 10**12), "".join(r.choice("0123456789") for _ in range(30)))
            elif k == 6: s = "0." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 20)))
            elif k == 7: s = "+%d.%d" % (r.randint(0, 999), r.randint(0, 999))
            elif k == 8: s = "%s.%d" % (r.choice(["", "-"]), r.randint(0, 9999))
            elif k == 9: s = "%d." % r.randint(-300, 300)
            elif k == 10: s = "00%d.50" % r.randint(0, 99)
            elif k == 11: s = r.choice(["1E-30", "1e+30", "-9.999999999999999999E-18", "1E25", "5e-324", "1.7976931348623157E+308", "0E0"])
            elif k == 12: s = r.choice(["0.1", "0.30000000000000004", "123456789.123456789123456789", "9007199254740993", "-0.10", "1e0", "0.5"])
            else:
                a = lo if lo is not None else Decimal(-7000)
                b = hi if hi is not None else Decimal(7000)
                s = "%.*f" % (r.randint(0, 9), float(a) + r.random() * float(b - a))
            if ok(s):
                return s
        for s in ("0.5", "1", "-1", "50"):
            if ok(s):
                return s
        raise AssertionError(f)

    def integer(self, f):
        r = self.r
        if "max_inclusive" in f:
            return str(r.randint(int(f["min_inclusive"]), int(f["max_inclusive"])))
        return r.choice(["0", "1", "7", str(r.randint(2, 99999)), "-3", "123456789012345678901", "+5", "007", "2", "3", "4", "8", "10", "999", "1000", "9999",
                         "10000", "99999", "100000", "339999", "999999999", "25544", "00005", "240", "221"])

    def enum(self, name):
        vals = ENUMS[name]
        if not self.lower:
            up = [v for v in vals if v == v.upper()]
            vals = up or vals
        return self.r.choice(vals)

    def leaf(self, f, cls=None):
        b = f["base"]
        if cls is not None and self.values:
            v = self.values.get(cls + "." + f["py"])
            if v is not None:
                return v
        if "fixed" in f:
            return f["fixed"]
        if b == "str":
            if "pattern" in f:
                if f["pattern"].startswith("\\d{1}"):
                    return self.r.choice(["1,2", "1,2,1", "2,1", "1,2,3,4,5", "5,1"])
                return self.epoch(table=False)
            v = VOCAB.get(f["xml"])
            if v and self.vocab and self.r.random() < 0.4:
                return self.r.choice(v)
            return self.text()
        if b == "decimal":
            return self.decimal(f)
        if b == "int":
            return self.integer(f)
        return self.enum(f["ref"])

    # ---- composite --------------------------------------------------------
    def want(self, f, cls=None):
        if f.get("required"):
            return True
        x = self.force.get("%s.%s" % (cls, f["py"])) if self.force else None
        return self.r.random() < self.fill if x is None else x

    def ncomments(self):
        if self.r.random() >= self.pcom:
            return []
        return self.again([self.comment() for _ in range(self.r.choice([1, 1, 2, 3]))])

    def again(self, cs):
        """comments may repeat exactly"""
        if cs and self.r.random() < 0.06:
            cs.insert(self.r.randrange(len(cs) + 1), self.r.choice(cs))
        return cs

    def count(self, key, lo, hi):
        if key in self.sizes:
            return self.sizes[key]
        return self.r.randint(lo, max(lo, hi))

    def valued(self, cls, units=None, **extra):
        n = Node(cls)
        for f in fields(cls):
            if f["py"] in extra:
                n[f["py"]] = extra[f["py"]]
            elif f["py"] == "units":
                use = self.units if units is None else units
                if self.r.random() < use:
                    n["units"] = self.leaf(f, cls)
            else:
                n[f["py"]] = self.leaf(f, cls)
        return n

    def build(self, cls, ctx=None, **over):
        meth = getattr(self, "g_" + cls, None)
        if meth and not over.pop("_plain", False):
            return meth(ctx)
        n = Node(cls)
        for f in fields(cls):
            py = f["py"]
            if py in over:
                if over[py] is not None:
                    n[py] = over[py]
                continue
            if py == "comment":
                x = self.force.get(cls + ".comment")
                n[py] = self.ncomments() if x is None else [] if not x else self.again([
                    self.comment() for _ in range(self.r.choice([1, 2, 3]))])
            elif f.get("list"):
                lo = f.get("min_occurs", 0)
                hi = f.get("max_occurs", max(lo, self.maxlist))
                x = self.force.get(cls + "." + py)
                if x is False or (lo == 0 and self.fill == 0.0 and not x):
                    hi = lo
                elif x and lo == 0:
                    lo = 1
                n[py] = [self.item(f, ctx, cls) for _ in range(self.count(cls + "." + py, lo, hi))]
                if len(n[py]) > 1 and "max_occurs" not in f and self.r.random() < 0.06:
                    # items may repeat exactly
                    i = self.r.randrange(1, len(n[py]))
                    n[py][i] = n[py][i - 1].copy() if isinstance(n[py][i - 1], Node) else n[py][i - 1]
            elif self.want(f, cls):
                n[py] = self.item(f, ctx, cls)
        # containers without any content of their own cannot be told apart from
        # absent ones; give optional groups one value
        return n

    def item(self, f, ctx, cls=None):
        if f["base"] != "class":
            return self.leaf(f, cls)
        ref = f["ref"]
        if any(x["kind"] == "text" for x in fields(ref)):
            return self.valued(ref)
        old = self.seen.get(ref)
        if old and ref != "OemData" and not (ctx and ctx.get("acc")) and self.r.random() < (0.3 if ref.endswith("Metadata") else 0.06):
            # two parts of a message may be exactly alike
            return old.copy()
        n = self.build(ref, ctx)
        self.seen[ref] = n
        return n

    def nonempty(self, node, cls, ctx=None):
        """optional-only groups: make sure at least one keyword is present."""
        if any(f["py"] != "comment" and node.get(f["py"]) not in (None, []) for f in fields(cls)):
            return node
        cand = [f for f in fields(cls) if f["py"] != "comment"]
        f = self.r.choice(cand)
        node[f["py"]] = self.item(f, ctx)
        return node

    # groups whose members are all optional
    def g_AdditionalParametersType(self, ctx):
        return self.nonempty(self.build("AdditionalParametersType", ctx, _plain=True), "AdditionalParametersType")

    def g_OdParametersType(self, ctx):
        return self.nonempty(self.build("OdParametersType", ctx, _plain=True), "OdParametersType")

    def g_GroundImpactParametersType(self, ctx):
        return self.nonempty(self.build("GroundImpactParametersType", ctx, _plain=True), "GroundImpactParametersType")

    def g_RdmSpacecraftParametersType(self, ctx):
        return self.nonempty(self.build("RdmSpacecraftParametersType", ctx, _plain=True), "RdmSpacecraftParametersType")

    def g_UserDefinedType(self, ctx):
        n = Node("UserDefinedType")
        n["comment"] = self.ncomments()
        n["user_defined"] = [
            Node("UserDefinedParameterType", value=self.text(), parameter=self.param(i))
            for i in range(self.count("UserDefinedType.user_defined", 1, self.maxlist + 1))
        ]
        return n

    def param(self, i):
        p = self.r.choice(["EARTH_MODEL", "ID", "X", "EPOCH", "MASS", "A1", "OBJECT_NAME", "USER", "LONG_PARAMETER_NAME_WITH_PARTS", "2ND"])
        return "%s_%d" % (p, i)

    def g_MeanElementsType(self, ctx):
        n = self.build("MeanElementsType", ctx, _plain=True)
        drop = self.r.choice(["semi_major_axis", "mean_motion"])
        keep = "mean_motion" if drop == "semi_major_axis" else "semi_major_axis"
        n.v.pop(drop, None)
        if n.get(keep) is None:
            n[keep] = self.item(CLASSES["MeanElementsType"]["by_py"][keep], ctx)
        return n

    def g_KeplerianElementsType(self, ctx):
        n = self.build("KeplerianElementsType", ctx, _plain=True)
        drop, keep = self.r.choice([("true_anomaly", "mean_anomaly"), ("mean_anomaly", "true_anomaly")])
        n.v.pop(drop, None)
        if n.get(keep) is None:
            n[keep] = self.item(CLASSES["KeplerianElementsType"]["by_py"][keep], ctx)
        return n

    def g_StateVectorAccType(self, ctx):
        acc = ctx and ctx.get("acc")
        n = Node("StateVectorAccType", epoch=self.epoch())
        names = ["x", "y", "z", "x_dot", "y_dot", "z_dot"] + (["x_ddot", "y_ddot", "z_ddot"] if acc else [])
        for py in names:
            f = CLASSES["StateVectorAccType"]["by_py"][py]
            n[py] = self.valued(f["ref"], units=0 if self.kvn else None)
        return n

    def g_OemData(self, ctx):
        ctx = dict(ctx or {}, acc=self.r.random() < 0.4)
        return self.build("OemData", ctx, _plain=True)

    def g_OemCovarianceMatrixType(self, ctx):
        n = Node("OemCovarianceMatrixType", comment=self.ncomments())
        for f in fields("OemCovarianceMatrixType"):
            if f["py"] == "comment":
                continue
            if f["base"] == "class":
                n[f["py"]] = self.valued(f["ref"], units=0 if self.kvn else None)
            elif self.want(f, "OemCovarianceMatrixType"):
                n[f["py"]] = self.leaf(f, "OemCovarianceMatrixType")
        return n

    AXES = {"1": "X", "2": "Y", "3": "Z"}

    def rot(self, kind, seq, units):
        cls = "RotationAngleType" if kind == "angle" else "RotationRateType"
        comp = "RotationAngleComponentType" if kind == "angle" else "RotationRateComponentType"
        n = Node(cls)
        for i, ax in enumerate(seq):
            n["rotation%d" % (i + 1)] = self.valued(
                comp, units=units, **{kind: self.AXES[ax] + ("_ANGLE" if kind == "angle" else "_RATE")})
        return n

    def quat(self):
        return Node("QuaternionType", **{
            k: self.decimal({"min_inclusive": "-1", "max_inclusive": "1"}) for k in ("qc", "q1", "q2", "q3")})

    def quatrate(self, units):
        return Node("QuaternionRateType", **{
            k: self.valued("QuaternionDotType", units=units) for k in ("qc_dot", "q1_dot", "q2_dot", "q3_dot")})

    def g_QuaternionStateType(self, ctx):
        n = self.build("QuaternionStateType", ctx, _plain=True, quaternion=self.quat(), quaternion_rate=None)
        x = self.force.get("QuaternionStateType.quaternion_rate")
        if self.r.random() < self.fill if x is None else x:
            n["quaternion_rate"] = self.quatrate(None)
        return n

    def g_EulerElementsThreeType(self, ctx):
        n = self.build("EulerElementsThreeType", ctx, _plain=True, rotation_angles=None, rotation_rates=None)
        seq = n.get("euler_rot_seq")
        if seq is None or len(set(seq)) < 3:
            seq = self.r.choice(["123", "132", "213", "231", "312", "321"])
            if self.r.random() < 0.7:
                n["euler_rot_seq"] = seq
        if self.r.random() < 0.8:
            n["rotation_angles"] = self.rot("angle", seq, None)
        x = self.force.get("EulerElementsThreeType.rotation_rates")
        if self.r.random() < self.fill if x is None else x:
            n["rotation_rates"] = self.rot("rate", seq, None)
        # in KVN comments belong to a keyword of the block itself (CCSDS 504.0 table 3-3: its frames are mandatory)
        own = [k for k in ("euler_frame_a", "euler_frame_b", "euler_dir", "euler_rot_seq", "rate_frame") if n.get(k) is not None]
        if not own and (self.kvn and n.get("comment") or n.get("rotation_angles") is None and n.get("rotation_rates") is None):
            n["euler_frame_a"] = self.text()
        return n

    ATT = {
        "QUATERNION": ("quaternion_state", "QuaternionEphemerisType"),
        "QUATERNION/DERIVATIVE": ("quaternion_derivative", "QuaternionDerivativeType"),
        "QUATERNION/RATE": ("quaternion_euler_rate", "QuaternionEulerRateType"),
        "EULER_ANGLE": ("euler_angle", "EulerAngleType"),
        "EULER_ANGLE/RATE": ("euler_angle_rate", "EulerAngleRateType"),
        "SPIN": ("spin", "SpinType"),
        "SPIN/NUTATION": ("spin_nutation", "SpinNutationType"),
    }
    att_types = None
    att_fixed = None

    def g_AemSegment(self, ctx):
        r = self.r
        fix = self.att_fixed or [None, None, None]
        at = fix[0] or r.choice(self.att_types or list(self.ATT))
        md = self.build("AemMetadata", ctx, attitude_type=at, quaternion_type=None, euler_rot_seq=None)
        low = self.lower and r.random() < 0.2
        md["attitude_type"] = at.lower() if low else at
        seq = None
        # keep keyword order independent: fields are emitted in schema order anyway
        if at.startswith("QUATERNION"):
            qt = fix[1] or r.choice(["FIRST", "LAST"])
            md["quaternion_type"] = qt.lower() if self.lower and r.random() < 0.2 else qt
        if at.startswith("EULER") or at.endswith("RATE"):
            seqs = [s for s in ENUMS["RotseqType"]]
            seqs3 = [s for s in seqs if len(set(s)) == 3]
            seq = fix[2] or r.choice(seqs if r.random() < 0.3 else seqs3)
            md["euler_rot_seq"] = seq
        data = Node("AemData", comment=self.ncomments())
        data["attitude_state"] = [
            self.attstate(at, seq) for _ in range(self.count("AemData.attitude_state", 1, self.maxlist + 2))]
        return Node("AemSegment", metadata=md, data=data)

    def attstate(self, at, seq):
        py, cls = self.ATT[at]
        u = 0 if self.kvn else None
        n = Node(cls, epoch=self.epoch())
        if at.startswith("QUATERNION"):
            n["quaternion"] = self.quat()
            if at == "QUATERNION/DERIVATIVE":
                n["quaternion_rate"] = self.quatrate(u)
            if at == "QUATERNION/RATE":
                n["rotation_rates"] = self.rot("rate", seq, u)
        elif at.startswith("EULER"):
            n["rotation_angles"] = self.rot("angle", seq, u)
            if at.endswith("RATE"):
                n["rotation_rates"] = self.rot("rate", seq, u)
        else:
            for f in fields(cls):
                if f["py"] != "epoch":
                    n[f["py"]] = self.valued(f["ref"], units=u)
        return Node("AttitudeStateType", **{py: n})

    obs_fields = None

    def g_TrackingDataObservationType(self, ctx):
        fs = [f for f in fields("TrackingDataObservationType") if f["py"] != "epoch"]
        if self.obs_fields:
            fs = [f for f in fs if f["py"] in self.obs_fields]
        f = self.r.choice(fs)
        n = Node("TrackingDataObservationType", epoch=self.epoch())
        n[f["py"]] = (self.leaf(f) if f["base"] != "class"
                      else self.valued(f["ref"], units=0 if self.kvn else None))
        return n

    def message(self, typ):
        return self.build(typ)

    def combined(self, n=None, types=None, message_id=None):
        r = self.r
        node = Node("Ndm", comment=self.ncomments())
        if message_id or (message_id is None and r.random() < 0.5):
            node["message_id"] = self.text()
        n = r.choice([0, 1, 2, 3, 5]) if n is None else n
        seq = [r.choice(types or TYPES) for _ in range(n)]
        for t in seq:
            node.v.setdefault(t.lower(), []).append(self.message(t))
        return node
