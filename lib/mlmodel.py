"""Random forest and support vector machine models: generator, OpenCV file writer and independent evaluation."""
import numpy as np


def f32(x):
    return float(np.float32(x))


def make_forest(rng, nf, ntree, depth, labels):
    """labels: class labels (classification) or None (regression)"""
    def node(d):
        n = dict(depth=d)
        if labels is None:
            n["value"] = round(float(rng.uniform(-1.5, 4)), 4)
        else:
            n["cls"] = int(rng.integers(len(labels)))
        if d < depth and rng.random() < (1.0 if d == 0 else 0.75):
            n["var"] = int(rng.integers(nf))
            n["le"] = (int(rng.integers(-2000, 9000)) + 0.5) / 10000.0
            n["kids"] = [node(d + 1), node(d + 1)]
        return n
    return dict(kind="rf", nf=nf, labels=labels, trees=[node(0) for _ in range(ntree)])


def write_forest(m, path):
    nf, lab = m["nf"], m["labels"]
    s = ['<?xml version="1.0"?>\n<opencv_storage>\n<opencv_ml_rtrees>\n  <format>3</format>\n  <is_classifier>%d</is_classifier>\n' % (lab is not None)]
    s.append("  <var_all>%d</var_all>\n  <var_count>%d</var_count>\n  <ord_var_count>%d</ord_var_count>\n  <cat_var_count>%d</cat_var_count>\n" %
             (nf + 1, nf, nf + (lab is None), lab is not None))
    s.append("  <training_params>\n    <use_surrogates>0</use_surrogates>\n    <max_categories>10</max_categories>\n"
             "    <regression_accuracy>9.9999997764825821e-03</regression_accuracy>\n    <max_depth>6</max_depth>\n    <min_sample_count>1</min_sample_count>\n"
             "    <cross_validation_folds>0</cross_validation_folds>\n    <nactive_vars>1</nactive_vars></training_params>\n  <global_var_idx>1</global_var_idx>\n")
    s.append("  <var_idx>\n    %s</var_idx>\n  <var_type>\n    %s</var_type>\n" %
             (" ".join(map(str, range(nf))), " ".join(["0"] * nf + ["0" if lab is None else "1"])))
    if lab is not None:
        s.append("  <cat_ofs>\n    %s</cat_ofs>\n  <class_labels>\n    %s</class_labels>\n" % (" ".join(["0"] * (2 * nf)), " ".join(map(str, lab))))
    s.append("  <missing_subst>\n    %s</missing_subst>\n  <oob_error>0.1</oob_error>\n  <var_importance>\n    %s</var_importance>\n" %
             (" ".join(["0."] * (nf + 1)), " ".join(["0.5"] * nf)))
    s.append("  <ntrees>%d</ntrees>\n  <trees>\n" % len(m["trees"]))

    def emit(n):
        s.append("        <_>\n          <depth>%d</depth>\n          <value>%r</value>\n" % (n["depth"], n["value"] if lab is None else float(lab[n["cls"]])))
        if lab is not None:
            s.append("          <norm_class_idx>%d</norm_class_idx>" % n["cls"])
        if "kids" in n:
            s.append("\n          <splits>\n            <_><var>%d</var>\n              <quality>1.</quality>\n              <le>%.17g</le></_></splits>" % (n["var"], f32(n["le"])))
        s.append("</_>\n")
        for k in n.get("kids", []):
            emit(k)

    for t in m["trees"]:
        s.append("    <_>\n      <nodes>\n")
        emit(t)
        s.append("      </nodes></_>\n")
    s.append("  </trees></opencv_ml_rtrees>\n</opencv_storage>\n")
    with open(path, "w") as f:
        f.write("".join(s))


def leaf_values(tree, x, key):
    """x [n, nf] -> value of the leaf each sample falls into"""
    out = np.empty(len(x), object if key == "cls" else float)
    stack = [(tree, np.arange(len(x)))]
    while stack:
        n, idx = stack.pop()
        if "kids" in n:
            left = x[idx, n["var"]] <= n["le"]
            stack += [(n["kids"][0], idx[left]), (n["kids"][1], idx[~left])]
        else:
            out[idx] = n[key]
    return out


def forest_votes(m, x):
    v = np.zeros((len(m["labels"]), len(x)), int)
    for t in m["trees"]:
        c = leaf_values(t, x, "cls").astype(int)
        v[c, np.arange(len(x))] += 1
    return v


def forest_mean(m, x):
    return sum(leaf_values(t, x, "value") for t in m["trees"]) / len(m["trees"])


def make_svm(rng, nf, nsv, labels):
    sv = np.round(rng.uniform(-0.3, 1.0, (nsv, nf)), 4)
    m = dict(kind="svm", nf=nf, labels=labels, gamma=float(rng.choice([0.5, 1.0, 4.0])), sv=sv, dec=[])
    pairs = 1 if labels is None else len(labels) * (len(labels) - 1) // 2
    for _ in range(pairs):
        k = int(rng.integers(1, nsv + 1))
        idx = sorted(rng.permutation(nsv)[:k].tolist())
        m["dec"].append((round(float(rng.uniform(-0.5, 0.5)), 5), np.round(rng.uniform(-2, 2, k), 4).tolist(), idx))
    if labels is None:      # a regression uses every support vector
        rho, _, _ = m["dec"][0]
        m["dec"] = [(rho, np.round(rng.uniform(-2, 2, nsv), 4).tolist(), list(range(nsv)))]
    return m


def write_svm(m, path):
    lab = m["labels"]
    s = ['<?xml version="1.0"?>\n<opencv_storage>\n<opencv_ml_svm>\n  <format>3</format>\n  <svmType>%s</svmType>\n  <kernel>\n    <type>RBF</type>\n'
         '    <gamma>%r</gamma></kernel>\n  <C>1.</C>\n%s  <term_criteria><epsilon>1.0e-03</epsilon>\n    <iterations>1000</iterations></term_criteria>\n'
         '  <var_count>%d</var_count>\n' % ("EPS_SVR" if lab is None else "C_SVC", m["gamma"], "  <p>1.0e-07</p>\n" if lab is None else "", m["nf"])]
    if lab is not None:
        s.append('  <class_count>%d</class_count>\n  <class_labels type_id="opencv-matrix">\n    <rows>%d</rows>\n    <cols>1</cols>\n    <dt>i</dt>\n    <data>\n'
                 '      %s</data></class_labels>\n' % (len(lab), len(lab), " ".join(map(str, lab))))
    s.append("  <sv_total>%d</sv_total>\n  <support_vectors>\n" % len(m["sv"]))
    for v in m["sv"]:
        s.append("    <_>\n      %s</_>\n" % " ".join("%.8e" % x for x in v))
    s.append("  </support_vectors>\n  <decision_functions>\n")
    for rho, alpha, idx in m["dec"]:
        s.append("    <_>\n      <sv_count>%d</sv_count>\n      <rho>%.17g</rho>\n      <alpha>\n        %s</alpha>\n" % (len(alpha), rho, " ".join("%.17g" % a for a in alpha)))
        if lab is not None:
            s.append("      <index>\n        %s</index>" % " ".join(map(str, idx)))
        s.append("</_>\n")
    s.append("  </decision_functions></opencv_ml_svm>\n</opencv_storage>\n")
    with open(path, "w") as f:
        f.write("".join(s))


def svm_decisions(m, x):
    d = ((x[:, None, :] - m["sv"][None]) ** 2).sum(2)
    k = np.exp(-m["gamma"] * d)
    return [k[:, idx] @ np.array(alpha) - rho for rho, alpha, idx in m["dec"]]


def svm_class(m, x):
    """(label, certain)"""
    lab = m["labels"]
    dec = svm_decisions(m, x)
    v = np.zeros((len(lab), len(x)), int)
    sure = np.ones(len(x), bool)
    q = 0
    for i in range(len(lab)):
        for j in range(i + 1, len(lab)):
            v[i] += dec[q] > 0
            v[j] += dec[q] <= 0
            sure &= np.abs(dec[q]) > 1e-4
            q += 1
    top = np.sort(v, 0)
    sure &= top[-1] > top[-2]
    return np.array(lab)[v.argmax(0)], sure
