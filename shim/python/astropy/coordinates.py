# angles on the sphere, as far as the configuration modules need them
import math


class Angle:
    def __init__(self, rad):
        self.rad = self.radian = rad
        self.degree = self.deg = math.degrees(rad)


class SkyCoord:
    def __init__(self, ra, dec, *args, **kw):
        self.a, self.d = math.radians(ra), math.radians(dec)

    def separation(self, o):
        da = o.a - self.a
        x = math.cos(self.d) * math.sin(o.d) - math.sin(self.d) * math.cos(o.d) * math.cos(da)
        y = math.cos(o.d) * math.sin(da)
        z = math.sin(self.d) * math.sin(o.d) + math.cos(self.d) * math.cos(o.d) * math.cos(da)
        return Angle(math.atan2(math.hypot(x, y), z))

    def position_angle(self, o):
        da = o.a - self.a
        return Angle(math.atan2(math.sin(da) * math.cos(o.d), math.cos(self.d) * math.sin(o.d) - math.sin(self.d) * math.cos(o.d) * math.cos(da)) % (2 * math.pi))
