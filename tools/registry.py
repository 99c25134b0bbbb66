"""The parts that decide each property."""
import families


def dyn(c):
    c.dyn()


def explore(c):
    c.explore()


def draw(c):
    c.draw()


def load(c):
    c.load()


def lua(c):
    c.lua()


PARTS = {p: [explore, dyn] for p in families.DYN}
for _p in families.LOAD:
    PARTS[_p] = PARTS.get(_p, []) + [load]

PARTS['C24'] = [lua]
for _p in families.DRAW:
    PARTS[_p] = (PARTS.get(_p) or [explore]) + [draw]

DYNTECH = 'TLA+ specification of the presenter (spec/Ginga.tla): TLC trace validation of the real presenter, and TLC exploration of small documents replayed on it'
LOADTECH = 'TLA+ specification of the document language (spec/Load.tla), checked by TLC against what the real parser returns'
DYNNOTE = ('TLC checks every recorded call of the real presenter on generated documents and schedules against the '
           'specification, comparing all event states, times, properties, players, focus and the order of transitions. '
           'Assumes the stubbed media players (no audio/video decoding) and the interposed Event::transition record.')
LOADNOTE = ('TLC computes from the elements and attributes of each generated document the verdict and the whole object '
            'graph, and compares both with what the real parser returns: random documents, all single defects of a core '
            'document (thorough: all; quick: a sample or the elements concerned), and random import graphs. Odd numbers, '
            'times and unusual characters are left undecided by the specification.')
TECH = {}
NOTE = {}
for _p in PARTS:
    d, l = _p in families.DYN, _p in families.LOAD
    TECH[_p] = '; '.join([DYNTECH] * d + [LOADTECH] * l)
    NOTE[_p] = ' '.join([DYNNOTE] * d + [LOADNOTE] * l)
TECH['C24'] = ('TLA+ specification of Lua-table documents (spec/LoadLua.tla), checked by TLC against what the real parser '
               'returns')
NOTE['C24'] = ('TLC computes from each generated table the verdict and the whole object graph and compares both with what '
               'the real (sanitized) parser returns: random tables and single defects of a core table with everything in '
               'it (thorough: all, about 8700). Odd times, URIs and repeated names are left undecided.')
for _p in families.DRAW:
    if _p in families.DYN:
        continue
    TECH[_p] = ('TLA+ specification of the presenter and its pictures (spec/Ginga.tla, spec/Draw.tla): TLC trace validation of the '
                'real presenter, and TLC exploration of small documents replayed on it')
    NOTE[_p] = ('TLC checks every recorded call of the real presenter on generated documents and schedules, and compares the '
                'colour of every point of every picture with what Draw.tla computes from the state. Of the contents of '
                'media only images and, in outline, texts are described; media whose both left and right (or top and bottom) are given may be anywhere in that '
                'direction; objects alike in z may be painted in any order.')
NOTE['C33'] += (' Pipelines and their elements are real, but do not run: the calls that would set them going are interposed, '
                'and ends, positions and frames of the contents come from the schedule.')
NA = {}
