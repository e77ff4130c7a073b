"""Independent reference data: SI brochure (9th ed.), NIST SP 811 App. B, IAU 2012/2015, NIST HB 44,
UK Weights and Measures Act. Written from those sources, not from the code under analysis.
name -> (dimension exponents M L T I Θ N J A, exact value in coherent SI (kg, m, s, A, K, mol, cd, rad), zero offset in the unit, relative tolerance)"""
from fractions import Fraction as F

from .terms import PI

M, L, T, I, K, N, J, A = [tuple(1 if i == j else 0 for j in range(8)) for i in range(8)]


def d(**k):
    return tuple(k.get(x, 0) for x in ("M", "L", "T", "I", "K", "N", "J", "A"))


EX = 1e-12
LB = F("0.45359237")
G0 = F("9.80665")
IN = F("0.0254")
FT = IN * 12
YD = FT * 3
GAL = 231 * IN ** 3
UKGAL = F("4.54609e-3")
AREA, VOL = d(L=2), d(L=3)
ENERGY, POWER, PRES = d(M=1, L=2, T=-2), d(M=1, L=2, T=-3), d(M=1, L=-1, T=-2)
AU = F(149597870700)
CM = F(299792458)

UNITS = {
    "gram": (M, F(1, 1000)), "grain": (M, LB / 7000), "carat": (M, F(2, 10000)), "ounce": (M, LB / 16),
    "troy_ounce": (M, LB / 7000 * 480), "troy_pound": (M, LB / 7000 * 5760), "pound": (M, LB), "stone": (M, LB * 14), "ton": (M, LB * 2240),
    "slug": (M, LB * G0 / FT),
    "meter": (L, F(1)), "inch": (L, IN), "foot": (L, FT), "yard": (L, YD), "mile": (L, YD * 1760), "nautical_mile": (L, F(1852)),
    "fathom": (L, YD * 2), "furlong": (L, YD * 220),
    "astronomical_unit": (L, AU), "light_year": (L, CM * F("31557600")), "parsec": (L, AU * 648000 / PI, 1e-9),
    "second": (T, F(1)), "minute": (T, F(60)), "hour": (T, F(3600)), "day": (T, F(86400)), "week": (T, F(604800)),
    "month": (T, F(30 * 86400)), "year": (T, F("31556925.19"), 1e-7),
    "ampere": (I, F(1)), "mole": (N, F(1)), "candela": (J, F(1)),
    "kelvin": (K, F(1)), "celsius": (K, F(1), EX, F("273.15")), "rankine": (K, F(5, 9)), "fahrenheit": (K, F(5, 9), EX, F("459.67")),
    "radian": (A, F(1)), "degree": (A, PI / 180), "gradian": (A, PI / 200), "turn": (A, PI * 2), "arcminute": (A, PI / 10800), "arcsecond": (A, PI / 648000),
    "hectare": (AREA, F(10000)), "acre": (AREA, YD * YD * 4840),
    "liter": (VOL, F(1, 1000)), "gallon": (VOL, GAL), "quart": (VOL, GAL / 4), "pint": (VOL, GAL / 8), "cup": (VOL, GAL / 16), "fluid_ounce": (VOL, GAL / 128),
    "tablespoon": (VOL, GAL / 256), "teaspoon": (VOL, GAL / 768), "uk_gallon": (VOL, UKGAL), "uk_quart": (VOL, UKGAL / 4), "uk_pint": (VOL, UKGAL / 8),
    "uk_cup": (VOL, UKGAL / 16), "uk_fluid_ounce": (VOL, UKGAL / 160), "uk_tablespoon": (VOL, UKGAL / 256), "uk_teaspoon": (VOL, UKGAL / 768),
    "bushel": (VOL, F("2150.42") * IN ** 3), "metric_fluid_ounce": (VOL, F("3e-5")),
    "hertz": (d(T=-1), F(1)), "newton": (d(M=1, L=1, T=-2), F(1)),
    "joule": (ENERGY, F(1)), "electron_volt": (ENERGY, F("1.602176634e-19")), "erg": (ENERGY, F("1e-7")), "newton_meter": (ENERGY, F(1)),
    "calorie": (ENERGY, F("4.184")), "foot_pound": (ENERGY, FT * LB * G0), "kilowatt_hour": (ENERGY, F(3600000)), "therm": (ENERGY, F("105505585.262")),
    "watt": (POWER, F(1)), "horsepower": (POWER, FT * LB * G0 * 550),
    "pascal": (PRES, F(1)), "torr": (PRES, F(101325, 760)), "psi": (PRES, LB * G0 / IN ** 2), "bar": (PRES, F(100000)), "atmosphere": (PRES, F(101325)),
    "coulomb": (d(T=1, I=1), F(1)), "volt": (d(M=1, L=2, T=-3, I=-1), F(1)), "farad": (d(M=-1, L=-2, T=4, I=2), F(1)),
    "ohm": (d(M=1, L=2, T=-3, I=-2), F(1)), "siemens": (d(M=-1, L=-2, T=3, I=2), F(1)), "henry": (d(M=1, L=2, T=-2, I=-2), F(1)),
    "tesla": (d(M=1, T=-2, I=-1), F(1)), "gauss": (d(M=1, T=-2, I=-1), F(1, 10000)), "weber": (d(M=1, L=2, T=-2, I=-1), F(1)),
    "lux": (d(L=-2, J=1), F(1)), "lumen": (J, F(1)),
    "stokes": (d(L=2, T=-1), F(1, 10000)),
}

# internationally fixed symbols (and the ones the documentation gives for customary units)
SYMBOLS = {
    "g": "gram", "gr": "grain", "ct": "carat", "oz": "ounce", "ozt": "troy_ounce", "lb": "pound", "st": "stone",
    "m": "meter", "in": "inch", "ft": "foot", "yd": "yard", "mi": "mile", "nmi": "nautical_mile", "AU": "astronomical_unit", "ly": "light_year", "pc": "parsec",
    "s": "second", "min": "minute", "h": "hour", "hr": "hour", "d": "day", "wk": "week", "mo": "month", "yr": "year",
    "A": "ampere", "mol": "mole", "cd": "candela", "K": "kelvin", "degC": "celsius", "degF": "fahrenheit", "degR": "rankine",
    "rad": "radian", "deg": "degree", "grad": "gradian", "rot": "turn", "turn": "turn", "arcmin": "arcminute", "arcsec": "arcsecond",
    "acre": "acre", "L": "liter", "l": "liter", "gal": "gallon", "cup": "cup", "fl_oz": "fluid_ounce", "tbsp": "tablespoon", "tsp": "teaspoon", "bu": "bushel",
    "Hz": "hertz", "N": "newton", "J": "joule", "eV": "electron_volt", "erg": "erg", "Nm": "newton_meter", "cal": "calorie", "ft_lb": "foot_pound",
    "kWh": "kilowatt_hour", "thm": "therm", "W": "watt", "hp": "horsepower", "Pa": "pascal", "Torr": "torr", "psi": "psi", "bar": "bar", "atm": "atmosphere",
    "C": "coulomb", "V": "volt", "F": "farad", "Ω": "ohm", "S": "siemens", "H": "henry", "T": "tesla", "G": "gauss", "Wb": "weber", "lx": "lux", "lm": "lumen",
    "St": "stokes",
}

# SI brochure table 7 (2022)
PREFIXES = {
    "quecto": (-30, "q"), "ronto": (-27, "r"), "yocto": (-24, "y"), "zepto": (-21, "z"), "atto": (-18, "a"), "femto": (-15, "f"), "pico": (-12, "p"),
    "nano": (-9, "n"), "micro": (-6, "µ"), "milli": (-3, "m"), "centi": (-2, "c"), "deci": (-1, "d"), "deca": (1, "da"), "hecto": (2, "h"), "kilo": (3, "k"),
    "mega": (6, "M"), "giga": (9, "G"), "tera": (12, "T"), "peta": (15, "P"), "exa": (18, "E"), "zetta": (21, "Z"), "yotta": (24, "Y"), "ronna": (27, "R"),
    "quetta": (30, "Q"),
}

# ISO 80000 quantity names -> dimension exponents
DIMENSIONS = {
    "Mass": M, "Length": L, "Time": T, "Current": I, "Temperature": K, "Amount": N, "Luminosity": J, "Angle": A, "Area": AREA, "Volume": VOL,
    "Frequency": d(T=-1), "Force": d(M=1, L=1, T=-2), "Energy": ENERGY, "Power": POWER, "Pressure": PRES, "Electric Charge": d(T=1, I=1),
    "Electric Potential": d(M=1, L=2, T=-3, I=-1), "Capacitance": d(M=-1, L=-2, T=4, I=2), "Electric Resistance": d(M=1, L=2, T=-3, I=-2),
    "Electric Conductance": d(M=-1, L=-2, T=3, I=2), "Inductance": d(M=1, L=2, T=-2, I=-2), "Magnetic Field": d(M=1, T=-2, I=-1),
    "Magnetic Flux": d(M=1, L=2, T=-2, I=-1), "Illuminance": d(L=-2, J=1), "Volume Mass Density": d(M=1, L=-3), "Linear Mass Density": d(M=1, L=-1),
    "Dynamic Viscosity": d(M=1, L=-1, T=-1), "Kinematic Viscosity": d(L=2, T=-1), "dimensionless": d(),
}

# dimension name -> the coherent SI unit that must head its list (the prefixable one)
BASE = {
    "Mass": "gram", "Length": "meter", "Time": "second", "Current": "ampere", "Temperature": "kelvin", "Amount": "mole", "Luminosity": "candela", "Angle": "radian",
    "Frequency": "hertz", "Force": "newton", "Energy": "joule", "Power": "watt", "Pressure": "pascal", "Electric Charge": "coulomb",
    "Electric Potential": "volt", "Capacitance": "farad", "Electric Resistance": "ohm", "Electric Conductance": "siemens", "Inductance": "henry",
    "Magnetic Field": "tesla", "Magnetic Flux": "weber", "Illuminance": "lux", "Volume": "liter",
}


def unit(name):
    u = UNITS.get(name)
    if u is None:
        return None
    return {"dim": u[0], "value": u[1], "tol": u[2] if len(u) > 2 else EX, "off": u[3] if len(u) > 3 else F(0)}
