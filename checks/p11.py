"""P11: exclusion sets are sets. Specification ExclusionSet.tla."""
from vlib.core import flat


def check(ctx):
    exe = ctx.build('exclusion_set.cc', ['src/infrastructure/exclusion/exclusion_set.cc'],
                    ['-fsanitize=address'])
    # 1. exhaustive: every pair of subsets of a universe at block edges, then every operation
    U = '{0, 1, 63, 64, 127, 192}' if ctx.thorough else '{0, 63, 64, 127, 192}'
    P = '<<0, 1, 63, 64, 65, 127, 128, 191, 192, 255, 256>>'
    script = '<<O3("or", 1, 2), O3("or", 2, 1), O3("sub", 1, 2), O3("sub", 2, 1), O2("copy", 3, 1), O2("ior", 3, 2), ' \
             'O2("copy", 3, 1), O2("isub", 3, 2), SetC(3, 130), O2("isub", 1, 2), O2("ior", 2, 1), SetC(2, 62), ' \
             'O2("isub", 2, 2), SetC(2, 65)>>'
    cmds = 'IF Len(h) = 0 THEN {Make(1, S, P) : S \\in SUBSET U} ELSE IF Len(h) = 1 THEN {Make(2, S, P) : S \\in SUBSET U}' \
           ' ELSE {Script[Len(h) - 1]}'
    defs = 'U == %s\nP == %s\nO2(o, r, s) == [op |-> o, r |-> r, s |-> s, probes |-> P]\n' \
           'O3(o, r, s) == [op |-> o, r |-> r, s |-> s, t |-> 3, probes |-> P]\n' \
           'SetC(r, i) == [op |-> "set", r |-> r, i |-> i, probes |-> P]\nScript == %s\nLawsInv == Laws(st)'
    hs = ctx.histories('ExclusionSet', cmds, 16, defs=defs % (U, P, script), inv=['LawsInv'])
    # 2. exhaustive: all short histories over two registers and two ids
    cmds2 = 'Cmds2({1,2}, P) \\cup CmdSet({1,2}, U, P) \\cup CmdClear({1}, P)'
    hs2 = ctx.histories('ExclusionSet', cmds2, 4 if ctx.thorough else 3, defs='U == {5, 70}\nP == <<0, 5, 69, 70, 71>>')
    if not ctx.thorough:
        hs2 = ctx.rng.sample(hs2, 1500)
    # 3. long random histories of the specification
    cmds3 = 'Cmds2(Reg, P) \\cup Cmds3(Reg, P) \\cup {[op |-> "set", r |-> r, i |-> i, probes |-> P] : r \\in Reg, ' \
            'i \\in {RandomElement(0..400), RandomElement(60..70), RandomElement(0..400)}} \\cup CmdClear({1}, P) \\cup ' \
            '{[op |-> "make", r |-> r, ids |-> Sorted(S), ' \
            'probes |-> P] : r \\in Reg, S \\in {RandomSubset(6, 0..330), RandomSubset(30, 100..220), RandomSubset(1, 0..70)}}'
    hs3 = ctx.histories('ExclusionSet', cmds3, 25, simulate=2500 if ctx.thorough else 200,
                        defs='P == %s' % P.replace('>>', ', 300, 319, 320, 399>>'))
    events = ctx.run_driver(exe, flat(hs + hs2 + hs3))
    ctx.validate('ExclusionSet', events)
