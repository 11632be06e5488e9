"""How much each check runs: random histories per tier, and design/emission runs of TLC."""
PLAN = {}
for i in list(range(1, 36)):
    PLAN[f"C{i:02d}"] = {"quick": 6500, "thorough": 60000, "deep": True}
PLAN["C07"].update(quick=1200, thorough=12000, deep=False)


def pool(nt=2, n=3, l=2, r=2, any_=2, one=1):
    """All histories of the menu on all grammars of a size; one in `one' is taken."""
    return {"cfg": "CfgMC.cfg", "module": "CfgMC.tla",
            "env": {"NT": str(nt), "N": str(n), "L": str(l), "R": str(r), "ANY": str(any_), "ONE": str(one), "DRY": "0"}}


# histories per grammar in CfgMC's menu
MENU = {"C02": 357, "C03": 36, "C04": 4, "C05": 4, "C06": 39, "C08": 1600, "C09": 2, "C10": 4, "C11": 2, "C12": 4, "C13": 6,
        "C14": 4, "C15": 1, "C16": 1, "C17": 1, "C18": 6, "C19": 1, "C20": 1, "C21": 4, "C22": 2, "C29": 3, "C31": 123, "C32": 3, "C35": 53}
for p, m in MENU.items():
    some = lambda total, want: max(1, total * m // want)      # one in this many, for about `want' histories
    PLAN[p]["quick_design"] = [pool(one=some(703, 3000)), pool(r=3, one=some(3979, 2500)), pool(nt=3, n=4, r=2, any_=1, one=some(2080, 1500))]
    PLAN[p]["thorough_design"] = [pool(one=some(703, 60000)), pool(r=3, any_=3, one=some(18279, 30000)), pool(r=4, one=some(20000, 20000)),
                                  pool(nt=3, n=4, r=3, one=some(45000, 20000)), pool(l=3, r=2, one=some(6481, 20000))]
for p in ["C09", "C10"]:      # unit rules only
    PLAN[p]["quick_design"].append(pool(nt=3, n=4, l=1, r=4, any_=1, one=4))
    PLAN[p]["thorough_design"].append(pool(nt=4, n=5, l=1, r=5, any_=1, one=6))
for p in ["C15", "C16", "C17"]:      # longer right-hand sides: what follows the middle of one
    PLAN[p]["quick_design"].append(pool(l=3, r=2, any_=1, one=1))
PLAN["C08"]["quick_design"] = [pool(r=0, one=2)]
PLAN["C08"]["thorough_design"] = [pool(r=0), pool(r=1, one=4)]
PLAN["C07"]["quick_design"] = [pool(r=0)]
PLAN["C07"]["thorough_design"] = [pool(r=1)]


def cases(n):
    return {"cfg": "CfgPoolMC.cfg", "module": "CfgPoolMC.tla", "env": {"COUNT": str(n)}}


def texts(mode, length, one, rich=False):
    return {"cfg": "CfgTextMC.cfg", "module": "CfgTextMC.tla",
            "env": {"MODE": mode, "LEN": str(length), "ONE": str(one), "RICH": str(int(rich))}}


for p, q, t in [("C01", 3000, 14641), ("C24", 3000, 60000), ("C27", 3000, 60000), ("C28", 3000, 60000), ("C30", 3000, 60000)]:
    PLAN[p]["quick_design"] = [cases(q)]
    PLAN[p]["thorough_design"] = [cases(t)]
PLAN["C20"]["quick_design"].append(cases(3000))
PLAN["C20"]["thorough_design"].append(cases(40000))
PLAN["C23"]["quick_design"] = [{"cfg": "CfgGenMC.cfg", "module": "CfgGenMC.tla", "env": {"COUNT": "16000"}, "workers": 8}]
PLAN["C23"]["thorough_design"] = [{"cfg": "CfgGenMC.cfg", "module": "CfgGenMC.tla", "env": {"COUNT": "200000"}, "workers": 8}]
PLAN["C25"]["quick_design"] = [texts("tokens", 7, 3), texts("chars", 4, 8)]
PLAN["C25"]["thorough_design"] = [texts("tokens", 9, 5), texts("chars", 5, 10)]
PLAN["C33"]["quick_design"] = [texts("tokens", 6, 10, True), texts("chars", 4, 25, True), texts("tokens", 6, 10, False), texts("chars", 4, 20, False)]
PLAN["C33"]["thorough_design"] = [texts("tokens", 8, 20, True), texts("chars", 5, 60, True), texts("tokens", 9, 10, False), texts("chars", 5, 10, False)]
PLAN["C26"]["quick_design"] = [texts("tokens", 6, 4, True), texts("chars", 4, 20, True)]
PLAN["C26"]["thorough_design"] = [texts("tokens", 8, 10, True), texts("chars", 5, 40, True)]


def orders(nt=2, n=3, r=3, one=1):
    """Fixpoints by chaotic iteration, in every order."""
    return {"cfg": "CfgFix.cfg", "module": "CfgFix.tla",
            "env": {"NT": str(nt), "N": str(n), "L": "2", "R": str(r), "ONE": str(one)}, "workers": 2}


for p in ["C11", "C15", "C16", "C22"]:
    PLAN[p]["quick_design"].append(orders(one=8))
    PLAN[p]["thorough_design"] += [orders(), orders(nt=3, n=4, one=20)]


def borrowed(p, step):
    """Another property's design step: its histories are run here as well."""
    return dict(step, env=dict(step["env"], PROP=p))


PLAN["C34"]["deep"] = False
PLAN["C34"]["quick_design"] = [borrowed("C31", pool(one=60)), borrowed("C10", pool(r=3, one=50)), borrowed("C18", pool(one=20)), borrowed("C15", pool(one=3))]
PLAN["C34"]["thorough_design"] = [borrowed(p, PLAN[p]["quick_design"][0]) for p in MENU]
