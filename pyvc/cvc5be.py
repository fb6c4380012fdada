"""Second back end: the same assertions through SMT-LIB to cvc5."""
import z3
import cvc5


def check(asserts, timeout_ms):
    s = z3.Solver()
    s.add(*asserts)
    txt = s.to_smt2()
    txt = '\n'.join(l for l in txt.split('\n') if not l.startswith('; '))
    sol = cvc5.Solver()
    sol.setOption('tlimit-per', str(int(timeout_ms)))
    sol.setLogic('ALL')
    p = cvc5.InputParser(sol)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        if c.getCommandName() in ('set-logic', 'set-option', 'set-info'):
            continue
        out = c.invoke(sol, sm)
        if 'unsat' in out:
            res = 'unsat'
        elif out.strip().startswith('sat'):
            res = 'sat'
    return res
