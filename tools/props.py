"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pymiediff/"
MSH, SPE, MAIN, HLP, TG, MAT = (S + "multishell.py", S + "special.py", S + "main.py", S + "helper/helper.py",
                               S + "helper/tg.py", S + "materials/mat.py")
P = []


def p(id, title, statement, over, text, why, files, mech, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=note))


p("C01", "Mie coefficients are the exact solution for layered spheres",
  "For every sphere with any number of concentric layers (dielectric, absorbing, metallic, index matched to the host, "
  "small, large or with thin layers) the default solver returns external coefficients a_n, b_n equal to the exact "
  "boundary-value solution for every order up to n_max. Each (particle, wavelength) entry of a batch equals the "
  "solution of that particle at that wavelength. An explicit n_max only truncates the list, and the automatic "
  "truncation keeps every order that matters.",
  "inputs configurations",
  "All size parameters 1e-4..150, 1-5 layers, complex indices |n|<10, host indices 1..2.2, all accepted batch layouts.",
  "Tests compare a handful of fixed spheres with another numerical code; errors at zeros of Bessel functions, thin "
  "layers, strong absorption or large size appear only for particular parameters.",
  [MSH, SPE], [("multilayer recursion", MSH + ":_miecoef_pena"), ("log-derivative recurrences", SPE + ":pena_D1_n")])

p("C02", "All solver backends agree on every observable",
  "For spheres with one or two layers the recursive default solver and both closed-form backends (native and scipy "
  "Bessel functions, with every Bessel option) give the same external coefficients, cross sections, angular scattering "
  "and near fields. The internal coefficients the closed-form backends return describe the exact fields inside core "
  "and shell.",
  "inputs configurations",
  "Homogeneous and core-shell spheres, x 0.05..25, Im(m x)<=6, batches of particles and wavelengths, backend names in any case.",
  "Tests compare backends for one or two particles; the closed-form solution has many separate formulas (core-shell and "
  "homogeneous, internal and external) that are each exercised by a different part of parameter space.",
  [MSH, SPE], [("closed-form coefficients", MSH + ":_miecoef"), ("backend dispatch", MSH + ":mie_coefficients")])

p("C03", "Cross sections obey energy conservation and their definitions",
  "Extinction equals scattering plus absorption, totals are the sums over the multipoles, efficiencies are cross sections "
  "divided by the geometric one, and all values equal the series of the coefficients and the exact reference. Lossless "
  "particles absorb nothing in any order; passive particles never show negative absorption or scattering and never exceed "
  "the single-channel (unitarity) limits.",
  "inputs configurations",
  "Batches of layered spheres of all material classes through every backend, with automatic and explicit n_max.",
  "Conservation must hold per order for every sphere; tests compare totals of a few examples.",
  [MSH], [("cross sections", MSH + ":cross_sections")])

p("C04", "Angular scattering is the far-field series and obeys its sum rules",
  "The scattering amplitudes S1, S2 equal the exact series at every angle including forward and backward, for any number "
  "and order of angles, in batches and for a scalar angle. Intensities, unpolarised intensity and degree of polarisation "
  "follow from them; forward amplitudes are equal and give the extinction (optical theorem), and the angular integral gives "
  "the scattering cross section.",
  "inputs configurations",
  "Angles from -2pi to 2pi including 0 and pi, layered spheres x 0.01..30, all backends and batch layouts.",
  "Tests check a single angle grid; symmetry, poles and sum rules quantify over all angles and particles.",
  [MSH, SPE], [("angular scattering", MSH + ":angular_scattering"), ("angular functions", SPE + ":pi_tau")])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

if __name__ == "__main__":
    P = [q for q in P if os.path.exists(os.path.join(V, "checks", q["id"].lower() + ".py"))]
    P.sort(key=lambda q: q["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
        property=q["id"], quick_cmd="bash run.sh %s --tier quick" % q["id"],
        thorough_cmd="bash run.sh %s --tier thorough" % q["id"],
        technique="property-based testing (Hypothesis generators, shrinking, explicit oracle)",
        level="exploration",
        level_note=q["_note"] or "randomised search over the stated domain with an independent oracle; never establishes absence")
        for q in P], not_applicable=[])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")
