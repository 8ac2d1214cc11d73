"""Base of the properties decided by comparing observations with the reference."""
from .. import core, embed, gen

CORPUS = gen.corpus()


def corpus_case(r, mutate=True):
    k, t = r.choice(CORPUS)
    c = dict(k=k, t=t, y=r.randint(2000, 2030), m=r.randint(1, 12))
    if mutate:
        c["t"] = gen.mutate(r, c["t"], keywords=r.random() < .5)
    return c


def reports(r, n, kind=None):
    """Random, mutated and real reports."""
    while n > 0:
        k = r.random()
        if k < .75:
            c = gen.any_report(r) if kind is None else gen.metar(r) if kind == "metar" else gen.taf(r)
            if k >= .5:
                c["t"] = gen.mutate(r, c["t"], keywords=r.random() < .3)
        else:
            c = corpus_case(r, r.random() < .8)
            if kind not in (None, c["k"]):
                continue
        n -= 1
        yield c


class Diff(core.Prop):
    """Observations `want` of the body and `inner` of trends/changes, against mon/ref.py."""
    want = ()
    inner = ()
    kind = None                        # "metar" or "taf" to restrict the random reports
    quick, thorough = 2500, 60000      # random reports per shard
    sweep_repeat = {"quick": 1, "thorough": 6}

    def sweep(self, r, tier):
        """(slot, tokens, sections) to be embedded; enumerated the same in every shard."""
        return ()

    def extra(self, r, tier, shard, n):
        return ()

    def cases(self, r, tier, shard, n):
        for rep in range(self.sweep_repeat[tier]):
            for slot, toks, where in core.sliced(self.sweep(core.rng(0, rep), tier), shard, n):
                for w in where:
                    yield embed.section(r, w, {slot: toks}, 0 if r.random() < .7 else .3)
        yield from self.extra(r, tier, shard, n)
        yield from reports(r, self.quick if tier == "quick" else self.thorough, self.kind)

    def judge(self, c, x):
        e, o, rep = core.compare(x, c, self.want, self.inner)
        core.count_obs(x, o)
        self.more(c, x, e, o, rep)
        d = core.pick(e, self.want, self.inner)
        if self.seen(d):
            x.nontrivial((c["k"], self.essence(d)))
            x.sample(c)

    def seen(self, d):
        """non-trivial: the report contains something the property speaks about"""
        return True

    def essence(self, d):
        return repr(d)

    def more(self, c, x, e, o, rep):
        pass
