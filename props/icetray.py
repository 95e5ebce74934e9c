"""Stand-ins for the parts of icecube that modules of egenerator.ic3 use."""
import sys
import types


class Module(object):
    def __init__(self, context):
        self.context, self.params, self.pushed = context, {}, []

    def AddOutBox(self, name):
        pass

    def AddParameter(self, name, doc, *default):
        self.params[name] = default[0] if default else None

    def GetParameter(self, name):
        return self.params[name]

    def PushFrame(self, frame):
        self.pushed.append(frame)


class Particle(object):
    InfiniteTrack = 'InfiniteTrack'

    def __init__(self, **k):
        self.pos = types.SimpleNamespace()
        self.dir = types.SimpleNamespace()
        for a, v in k.items():
            setattr(self, a, v)


for _n in ('NuE NuMu NuTau NuEBar NuMuBar NuTauBar Hadrons Pi0 Gamma PairProd '
           'Brems DeltaE EMinus EPlus MuMinus MuPlus').split():
    setattr(Particle, _n, _n)


class Pulse(object):
    time = charge = None


class Direction(object):
    def __init__(self, zenith, azimuth):
        self.zenith, self.azimuth = zenith, azimuth


class OMKey(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)


class Map(dict):
    pass


def install():
    if 'icecube' in sys.modules:
        return
    ice = types.ModuleType('icecube')
    ice.icetray = types.SimpleNamespace(I3ConditionalModule=Module,
                                        OMKey=OMKey)
    ice.dataclasses = types.SimpleNamespace(
        I3Particle=Particle, I3RecoPulse=Pulse, I3RecoPulseSeries=list,
        I3RecoPulseSeriesMap=Map, I3MapStringDouble=Map, I3MapKeyDouble=Map,
        I3Direction=Direction, I3Position=types.SimpleNamespace)
    sys.modules['icecube'] = ice


install()
