"""Reference model of a grid / continuous space on one process."""
from .common import expect, expect_eq
from .engine import Violation

BOX = {1: (-2, 4, 0, 0, 0, 0), 2: (-2, 4, 1, 3, 0, 0), 3: (-2, 4, 1, 3, 5, 2)}


def wrap(v, lo, ext):
    return lo + (v - lo) % ext


def clip(v, lo, ext):
    return max(lo, min(lo + ext - 1, v))


class SpaceModel:
    """what a sequence of add, remove and move does"""

    def __init__(self, box, periodic, single, grid):
        self.box, self.periodic, self.single, self.grid = box, periodic, single, grid
        self.members = []
        self.loc = {}
        self.at = {}
        self.canon = {}

    def target(self, raw, got=None):
        """where a move to raw ends; a continuous coordinate clipped at the
        upper border is only known up to 1e-6, so the observed one is taken"""
        out = []
        for d in range(3):
            lo, ext = self.box[2 * d], self.box[2 * d + 1]
            v = raw[d]
            if ext == 0:
                out.append(lo)
            elif self.periodic:
                out.append(wrap(v, lo, ext))
            elif self.grid:
                out.append(clip(v, lo, ext))
            elif v < lo + ext:
                out.append(max(lo, v))
            elif raw in self.canon:
                out.append(self.canon[raw][d])
            elif got is not None:
                if not (lo + ext - 1e-6 <= got[d] < lo + ext):
                    raise Violation('a move to %s ended at %s, outside or away from the border of %s' % (raw, got, self.box))
                out.append(got[d])
            else:
                out.append(None)
        t = tuple(out)
        if None not in t:
            self.canon[raw] = t
        return t

    def unplace(self, a):
        if a in self.loc:
            lst = self.at[self.loc.pop(a)]
            lst.remove(a)

    def place(self, a, t):
        if self.loc.get(a) == t:
            return True
        if self.single and self.at.get(t):
            return False
        self.unplace(a)
        self.loc[a] = t
        self.at.setdefault(t, []).append(a)
        return True


def pt_tuple(p):
    return (p.x, p.y, p.z)


def check_space(space, m, agents, pts, mk, num=None):
    """compares everything the space tells with the model"""
    for i, a in enumerate(agents):
        expect_eq(bool(space.contains(a)), i in m.members, 'contains(agent %d)' % i)
        if hasattr(type(space), '__contains__'):
            expect_eq(a in space, i in m.members, 'agent %d in the space' % i)
        p = space.get_location(a)
        want = m.loc.get(i)
        if want is None:
            expect(p is None, 'agent %d has no location but get_location gives %s', i, p)
        else:
            expect(p is not None, 'get_location(agent %d) gives None, expected %s', i, want)
            expect_eq(pt_tuple(p), want, 'get_location(agent %d)' % i)
    idx = {id(a): i for i, a in enumerate(agents)}
    for t in pts:
        want = m.at.get(t, [])
        pt = mk(*t)
        got = [idx.get(id(x), x) for x in space.get_agents(pt)]
        if got != want:
            raise Violation('get_agents%s gives agents %s, expected %s' % (t, got, want))
        first = space.get_agent(pt)
        got1 = None if first is None else idx.get(id(first), first)
        expect_eq(got1, want[0] if want else None, 'get_agent%s' % (t,))
        if num:
            expect_eq(space.get_num_agents(pt), len(want), 'get_num_agents%s' % (t,))
            for ty in (0, 1):
                expect_eq(space.get_num_agents(pt, ty), len([i for i in want if agents[i].type == ty]), 'get_num_agents(%s, %d)' % (t, ty))
