"""Which profiles decide which property: (profile, cases in a quick run, cases per round of a thorough run)."""
PLAN = dict(
    P01=[('dis', 1200, 3000)],
    P02=[('pos', 800, 2000), ('dis', 200, 500)],
    P03=[('link', 500, 1500), ('tmpl', 350, 1000), ('dis', 200, 500)],
    P04=[('sets', 1500, 4000)],
    P05=[('tags', 700, 2000)],
    P06=[('unif', 1800, 5000)],
    P07=[('sched', 1400, 4000)],
    P08=[('ident', 800, 2000)],
    P09=[('win', 1500, 4000)],
    P10=[('cmd', 2200, 6000)],
    P11=[('map', 1200, 3000)],
    P12=[('edit', 1500, 4000), ('wfch', 400, 1500)],
    P13=[('struct', 1300, 4000), ('sdep', 600, 2500)],
    P14=[('deps', 1600, 5000), ('sdep', 200, 1000)],
    P15=[('rels', 1800, 5000)],
    P16=[('form', 1500, 5000)],
    P18=[('hist', 1000, 3000)],
    P19=[('encl', 1500, 4000)],
    P20=[('subs', 1500, 4000)],
    P21=[('with', 900, 3000), ('prot', 900, 3000)],
    P17=[('via', 2500, 6000)],
    P22=[('obs', 1700, 5000)],
)
import extra  # noqa: E402
EXTRA = dict(P18=[extra.history])
