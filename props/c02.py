"""Algorithm pinning and registered algorithms."""
from psa import jose as J
from psa.ctx import Scenario
from psa.values import *

from .c01 import entry_for


PIN = J.sym("pinned", frozenset({"str"}), nonempty=True)


def hdr(name):
    sc = Scenario(name)
    for x in ("typ", "cty", "crit", "kid"):
        sc.fact("present", J.src(J.HDR), x, value=False)
    sc.fact("truthy", J.HDR, value=True)
    sc.fact("truthy", J.CLAIMS, value=True)
    J.no_claims(sc)
    return sc


def check(C):
    C.rule("pinned", "when the caller names an algorithm, no partition in which the header names another one returns a token")
    C.rule("registered", "no partition in which the header names no registered algorithm returns a token")
    C.rule("unsecured", "no partition with alg none and a non-empty signature segment returns a token")
    keys = J.KEYS
    for which in keys:
        mine = [a for a in J.SIGNED if J.TABLE[a][0] == which]
        pins = J.ALGS if C.thorough else mine + ["none", "HS256" if which != "oct" else "RS256"]
        for pin in pins:
            for api in ("jws", "jwt"):
                for validate in (None, False):
                    sc = hdr(f"{api} key={which} pinned={pin} header alg differs validate={validate}")
                    sc.fact("present", J.src(J.HDR), "alg", value=True)
                    sc.eq(J.hitem("alg"), pin, False)
                    msg = [None]
                    r = C.run(sc, make(api, which, pin, validate, msg))
                    C.oblige("pinned", len(r.paths))
                    for p in r.returns():
                        C.bad("pinned", f"{api}: a token is accepted although its algorithm is not the one the caller "
                                        f"requires (validate={validate is not False})", p)
    # the key declares an algorithm of its own, and the header agrees with the key
    for alg in J.SIGNED:
        which = J.TABLE[alg][0]
        for pin in J.ALGS if C.thorough else ("none", "RS256", "HS256"):
            if pin == alg:
                continue
            for api in ("jws", "jwt"):
                for validate in (None, False):
                    sc = hdr(f"{api} key={which} for {alg} pinned={pin} header {alg} validate={validate}")
                    sc.fact("present", J.src(J.HDR), "alg", value=True)
                    sc.eq(J.hitem("alg"), alg)
                    r = C.run(sc, make(api, which, pin, validate, [None], alg=alg, use="sig"))
                    C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                    C.oblige("pinned", len(r.paths))
                    for p in r.returns():
                        C.bad("pinned", f"{api}: a token is accepted although its algorithm is that of the key and not the one "
                                        f"the caller requires (validate={validate is not False})", p)
    # the caller names something that may not even be a registered algorithm
    for alg in J.ALGS:
        which = J.TABLE[alg][0] if J.TABLE[alg] else "oct"
        for api in ("jws", "jwt"):
            for validate in (None, False):
                sc = hdr(f"{api} key={which} pinned to any other text, header {alg} validate={validate}")
                sc.fact("present", J.src(J.HDR), "alg", value=True)
                sc.eq(J.hitem("alg"), alg)
                sc.eq(PIN, alg, False)
                r = C.run(sc, make(api, which, PIN, validate, [None]))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("pinned", len(r.paths))
                for p in r.returns():
                    C.bad("pinned", f"{api}: a token is accepted although its algorithm is not the one the caller "
                                    f"requires (validate={validate is not False})", p)
    # the pinned algorithm itself is accepted
    for alg in J.ALGS:
        which = J.TABLE[alg][0] if J.TABLE[alg] else "oct"
        sc = hdr(f"pinned {alg} and header {alg}")
        sc.fact("present", J.src(J.HDR), "alg", value=True)
        sc.eq(J.hitem("alg"), alg)
        r = C.run(sc, make("jws", which, alg, None, [None]))
        C.guard(r.returns() or r.unknown, f"a token with the pinned algorithm {alg} is never accepted")
    for which in keys:
        for api in ("jws", "jwt"):
            for validate in (None, False):
                sc = hdr(f"{api} key={which} unregistered alg validate={validate}")
                for a in J.ALGS:
                    sc.eq(J.hitem("alg"), a, False)
                r = C.run(sc, make(api, which, None, validate, [None]))
                C.oblige("registered", len(r.paths))
                for p in r.returns():
                    C.bad("registered", f"{api}: a token whose header names no registered algorithm is accepted "
                                        f"(validate={validate is not False})", p)
            sc = hdr(f"{api} key={which} alg none with a signature")
            sc.fact("present", J.src(J.HDR), "alg", value=True)
            sc.eq(J.hitem("alg"), "none")
            sc.bound(Term("len", (J.SIG,), frozenset({"int"})), 0, {1})
            for pin in (None, "none"):
                r = C.run(sc, make(api, which, pin, None, [None]))
                C.oblige("unsecured", len(r.paths))
                for p in r.returns():
                    C.bad("unsecured", f"{api}: an unsecured token with a non-empty signature is accepted", p)


def make(api, which, pin, validate, msg, **more):
    def entry(I):
        key = J.make_key(I, which, **more)
        Mutable.cur_phase = 2
        p = J.P_SEG if api == "jws" else J.C_SEG
        return J.decode(I, api, J.token(I, J.H_SEG, p, J.SIG), key, pin, validate)
    return entry
