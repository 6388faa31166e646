"""What the leaf-partition estimators are, one plain function each.

A leaf (b, l) is the box part[b, l]: sample x is in it, on the variables S, when part[.., 0] < x <= part[.., 1] on each.
These functions are never run: they are read by the same analysis as the kernels they describe, and the closed forms are
compared.
"""
import numpy as np


def inside(x, i, S, size, part, b, l):
    out = 0
    for s in range(size):
        if x[i, S[s]] > part[b, l, S[s], 1] or x[i, S[s]] <= part[b, l, S[s], 0]:
            out += 1
    return out == 0


def in_leaf(x, i, part, b, l, m):
    out = 0
    for s in range(m):
        if x[i, s] > part[b, l, s, 1] or x[i, s] <= part[b, l, s, 0]:
            out += 1
    return out == 0


def same(x, i, data, j, S, size):
    out = 0
    for s in range(size):
        if x[i, S[s]] != data[j, S[s]]:
            out += 1
    return out == 0


def compute_exp(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """E[f(X) | X_S]: leaves compatible with the sample, weighted with their share of the data that agrees on S."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for k in range(values.shape[2]):
            total = 0
            for b in range(values.shape[0]):
                for l in range(leaves_nb[b]):
                    leaf = 0
                    leaf_s = 0
                    for j in range(data.shape[0]):
                        if in_leaf(data, j, part, b, l, X.shape[1]):
                            leaf += 1
                        if inside(data, j, S, S.shape[0], part, b, l):
                            leaf_s += 1
                    if inside(X, i, S, S.shape[0], part, b, l) and leaf_s != 0:
                        total += leaf * values[b, leaf_idx_trees[b, l], k] / leaf_s
            out[i, k] = total
    return out


def compute_exp_normalized(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """The same with the weights of each tree divided by their sum."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for k in range(values.shape[2]):
            total = 0
            for b in range(values.shape[0]):
                norm = 0
                value = 0
                for l in range(leaves_nb[b]):
                    leaf = 0
                    leaf_s = 0
                    for j in range(data.shape[0]):
                        if in_leaf(data, j, part, b, l, X.shape[1]):
                            leaf += 1
                        if inside(data, j, S, S.shape[0], part, b, l):
                            leaf_s += 1
                    if inside(X, i, S, S.shape[0], part, b, l) and leaf_s != 0:
                        norm += leaf / leaf_s
                        value += leaf * values[b, leaf_idx_trees[b, l], k] / leaf_s
                if norm != 0:
                    total += value / norm
            out[i, k] = total
    return out


def compute_exp_cat(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """Discrete variables: the data that equals the sample on S."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for k in range(values.shape[2]):
            total = 0
            for b in range(values.shape[0]):
                for l in range(leaves_nb[b]):
                    leaf = 0
                    alike = 0
                    for j in range(data.shape[0]):
                        if same(X, i, data, j, S, S.shape[0]):
                            alike += 1
                            if in_leaf(data, j, part, b, l, X.shape[1]):
                                leaf += 1
                    if inside(X, i, S, S.shape[0], part, b, l) and alike != 0:
                        total += leaf * values[b, leaf_idx_trees[b, l], k] / alike
            out[i, k] = total
    return out


def compute_sdp_clf(X, fX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """P(same decision | X_S) = (E - E_other) / (E_same - E_other), with the expectations of the probability of the decided
    class over all the data, the data with the same decision and the data with another one."""
    part = partition_leaves_trees
    if S.shape[0] == X.shape[1]:
        return np.ones((X.shape[0]))
    if S.shape[0] == 0:
        return np.zeros((X.shape[0]))
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_same = 0
        e_other = 0
        for b in range(values.shape[0]):
            n = 0
            n_same = 0
            n_other = 0
            v = 0
            v_same = 0
            v_other = 0
            for l in range(leaves_nb[b]):
                q = 0
                q_same = 0
                q_other = 0
                s = 0
                s_same = 0
                s_other = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if fX[i] == y_pred[j]:
                            q_same += 1
                        else:
                            q_other += 1
                    if inside(data, j, S, S.shape[0], part, b, l):
                        s += 1
                        if fX[i] == y_pred[j]:
                            s_same += 1
                        else:
                            s_other += 1
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        n += q / s
                        v += q * values[b, leaf_idx_trees[b, l], fX[i]] / s
                    if s_same != 0:
                        n_same += q_same / s_same
                        v_same += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same
                    if s_other != 0:
                        n_other += q_other / s_other
                        v_other += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other
            if n != 0:
                e += v / n
            if n_same != 0:
                e_same += v_same / n_same
            if n_other != 0:
                e_other += v_other / n_other
        p = 0
        if e_same - e_other != 0:
            p = (e - e_other) / (e_same - e_other)
        out[i] = p
    return out


def compute_sdp_clf_cat(X, fX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """Discrete variables: expectations over the data that equals the sample on S; the ratio is kept within [0, 1]."""
    part = partition_leaves_trees
    if S.shape[0] == X.shape[1]:
        return np.ones((X.shape[0]))
    if S.shape[0] == 0:
        return np.zeros((X.shape[0]))
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_same = 0
        e_other = 0
        for b in range(values.shape[0]):
            for l in range(leaves_nb[b]):
                q = 0
                q_same = 0
                q_other = 0
                s = 0
                s_same = 0
                s_other = 0
                for j in range(data.shape[0]):
                    if same(X, i, data, j, S, S.shape[0]):
                        s += 1
                        if fX[i] == y_pred[j]:
                            s_same += 1
                        else:
                            s_other += 1
                        if in_leaf(data, j, part, b, l, X.shape[1]):
                            q += 1
                            if fX[i] == y_pred[j]:
                                q_same += 1
                            else:
                                q_other += 1
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        e += q * values[b, leaf_idx_trees[b, l], fX[i]] / s
                    if s_same != 0:
                        e_same += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same
                    if s_other != 0:
                        e_other += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other
        p = 0
        if e_same - e_other != 0:
            p = (e - e_other) / (e_same - e_other)
        if p > 1:
            out[i] = 1
        elif p >= 0:
            out[i] = p
    return out


def compute_sdp_swing(X, fX, y_pred, S, S_size, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, thresholds):
    """1 when the same-decision probability given X_S reaches the threshold, else 0."""
    part = partition_leaves_trees
    if S_size == X.shape[1]:
        return np.ones((X.shape[0]))
    if S_size == 0:
        return np.zeros((X.shape[0]))
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_same = 0
        e_other = 0
        for b in range(values.shape[0]):
            for l in range(leaves_nb[b]):
                q = 0
                q_same = 0
                q_other = 0
                s = 0
                s_same = 0
                s_other = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if fX[i] == y_pred[j]:
                            q_same += 1
                        else:
                            q_other += 1
                    if inside(data, j, S, S_size, part, b, l):
                        s += 1
                        if fX[i] == y_pred[j]:
                            s_same += 1
                        else:
                            s_other += 1
                if inside(X, i, S, S_size, part, b, l):
                    if s != 0:
                        e += q * values[b, leaf_idx_trees[b, l], fX[i]] / s
                    if s_same != 0:
                        e_same += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same
                    if s_other != 0:
                        e_other += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other
        p = 0
        if e_same - e_other != 0:
            p = (e - e_other) / (e_same - e_other)
        if p >= thresholds:
            out[i] = 1
    return out


def sdp_clf_sums(X, fX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """The same-decision probability with the weights of the leaves as they are."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_same = 0
        e_other = 0
        for b in range(values.shape[0]):
            for l in range(leaves_nb[b]):
                q = 0
                q_same = 0
                q_other = 0
                s = 0
                s_same = 0
                s_other = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if fX[i] == y_pred[j]:
                            q_same += 1
                        else:
                            q_other += 1
                    if inside(data, j, S, S.shape[0], part, b, l):
                        s += 1
                        if fX[i] == y_pred[j]:
                            s_same += 1
                        else:
                            s_other += 1
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        e += q * values[b, leaf_idx_trees[b, l], fX[i]] / s
                    if s_same != 0:
                        e_same += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same
                    if s_other != 0:
                        e_other += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other
        p = 0
        if e_same - e_other != 0:
            p = (e - e_other) / (e_same - e_other)
        out[i] = p
    return out


def compute_sdp_swing_diff(X, fX, y_pred, S, va_id, va, len_va_id, S_size, data, values, partition_leaves_trees, leaf_idx_trees,
                           leaves_nb, thresholds):
    """Change of the decision "the same-decision probability reaches the threshold" when the variables va_id[va] join S: the
    probability given nothing counts as 0, given all variables as 1."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_same = 0
        e_other = 0
        e_m = 0
        e_same_m = 0
        e_other_m = 0
        for b in range(values.shape[0]):
            n = 0
            n_same = 0
            n_other = 0
            v = 0
            v_same = 0
            v_other = 0
            n_m = 0
            n_same_m = 0
            n_other_m = 0
            v_m = 0
            v_same_m = 0
            v_other_m = 0
            for l in range(leaves_nb[b]):
                q = 0
                q_same = 0
                q_other = 0
                s = 0
                s_same = 0
                s_other = 0
                s_m = 0
                s_same_m = 0
                s_other_m = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if fX[i] == y_pred[j]:
                            q_same += 1
                        else:
                            q_other += 1
                    if inside(data, j, S, S_size, part, b, l):
                        s += 1
                        if fX[i] == y_pred[j]:
                            s_same += 1
                        else:
                            s_other += 1
                        if inside(data, j, va_id[va], len_va_id[va], part, b, l):
                            s_m += 1
                            if fX[i] == y_pred[j]:
                                s_same_m += 1
                            else:
                                s_other_m += 1
                if inside(X, i, S, S_size, part, b, l):
                    if s != 0:
                        n += q / s
                        v += q * values[b, leaf_idx_trees[b, l], fX[i]] / s
                    if s_same != 0:
                        n_same += q_same / s_same
                        v_same += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same
                    if s_other != 0:
                        n_other += q_other / s_other
                        v_other += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other
                    if inside(X, i, va_id[va], len_va_id[va], part, b, l):
                        if s_m != 0:
                            n_m += q / s_m
                            v_m += q * values[b, leaf_idx_trees[b, l], fX[i]] / s_m
                        if s_same_m != 0:
                            n_same_m += q_same / s_same_m
                            v_same_m += q_same * values[b, leaf_idx_trees[b, l], fX[i]] / s_same_m
                        if s_other_m != 0:
                            n_other_m += q_other / s_other_m
                            v_other_m += q_other * values[b, leaf_idx_trees[b, l], fX[i]] / s_other_m
            if n != 0:
                e += v / n
            if n_same != 0:
                e_same += v_same / n_same
            if n_other != 0:
                e_other += v_other / n_other
            if n_m != 0:
                e_m += v_m / n_m
            if n_same_m != 0:
                e_same_m += v_same_m / n_same_m
            if n_other_m != 0:
                e_other_m += v_other_m / n_other_m
        p = 0
        if e_same - e_other != 0:
            p = (e - e_other) / (e_same - e_other)
        p_m = 0
        if e_same_m - e_other_m != 0:
            p_m = (e_m - e_other_m) / (e_same_m - e_other_m)
        if S_size == 0:
            if 0 < thresholds and p_m >= thresholds:
                out[i] = 1
            elif 0 >= thresholds and p_m < thresholds:
                out[i] = -1
        elif S_size + len_va_id[va] == X.shape[1]:
            if p < thresholds and 1 >= thresholds:
                out[i] = 1
            elif p >= thresholds and 1 < thresholds:
                out[i] = -1
        else:
            if p < thresholds and p_m >= thresholds:
                out[i] = 1
            elif p >= thresholds and p_m < thresholds:
                out[i] = -1
    return out


def both(x, i, S, size, part, b, l, c, k):
    return inside(x, i, S, size, part, b, l) and inside(x, i, S, size, part, c, k)


def compute_sdp_reg(X, fX, tX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """P((f(X) - f)^2 <= tX | X_S) = (E_far - E) / (E_far - E_near) with E the expectation of f^2 - 2 f(X) f, f^2 being a sum
    over pairs of leaves: of the same tree, weighted by the leaf; of two trees, by the leaf of the first and, given it, by the
    leaf of the second."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        e = 0
        e_far = 0
        e_near = 0
        for b in range(values.shape[0]):
            n = 0
            n_far = 0
            n_near = 0
            for l in range(leaves_nb[b]):
                q = 0
                q_far = 0
                q_near = 0
                s = 0
                s_far = 0
                s_near = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                            q_far += 1
                        else:
                            q_near += 1
                    if inside(data, j, S, S.shape[0], part, b, l):
                        s += 1
                        if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                            s_far += 1
                        else:
                            s_near += 1
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        n += q / s
                    if s_far != 0:
                        n_far += q_far / s_far
                    if s_near != 0:
                        n_near += q_near / s_near
            for l in range(leaves_nb[b]):
                w = 0
                w_far = 0
                w_near = 0
                q = 0
                q_far = 0
                q_near = 0
                s = 0
                s_far = 0
                s_near = 0
                for j in range(data.shape[0]):
                    if in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                            q_far += 1
                        else:
                            q_near += 1
                    if inside(data, j, S, S.shape[0], part, b, l):
                        s += 1
                        if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                            s_far += 1
                        else:
                            s_near += 1
                f = values[b, leaf_idx_trees[b, l], 0]
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        w = q / s
                    if s_far != 0:
                        w_far = q_far / s_far
                    if s_near != 0:
                        w_near = q_near / s_near
                if n != 0:
                    e += w * (f * f - 2 * fX[i] * f) / n
                if n_far != 0:
                    e_far += w_far * (f * f - 2 * fX[i] * f) / n_far
                if n_near != 0:
                    e_near += w_near * (f * f - 2 * fX[i] * f) / n_near
                for c in range(values.shape[0]):
                    if c != b:
                        m = 0
                        m_far = 0
                        m_near = 0
                        v = 0
                        v_far = 0
                        v_near = 0
                        for k in range(leaves_nb[c]):
                            r = 0
                            r_far = 0
                            r_near = 0
                            t = 0
                            t_far = 0
                            t_near = 0
                            for j in range(data.shape[0]):
                                if in_leaf(data, j, part, b, l, X.shape[1]) and in_leaf(data, j, part, c, k, X.shape[1]):
                                    r += 1
                                    if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                                        r_far += 1
                                    else:
                                        r_near += 1
                                if both(data, j, S, S.shape[0], part, b, l, c, k):
                                    t += 1
                                    if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                                        t_far += 1
                                    else:
                                        t_near += 1
                            if both(X, i, S, S.shape[0], part, b, l, c, k):
                                if t != 0:
                                    m += r / t
                                    v += r * f * values[c, leaf_idx_trees[c, k], 0] / t
                                if t_far != 0:
                                    m_far += r_far / t_far
                                    v_far += r_far * f * values[c, leaf_idx_trees[c, k], 0] / t_far
                                if t_near != 0:
                                    m_near += r_near / t_near
                                    v_near += r_near * f * values[c, leaf_idx_trees[c, k], 0] / t_near
                        if m * n != 0:
                            e += (w / n) * (v / m)
                        if m_far * n_far != 0:
                            e_far += (w_far / n_far) * (v_far / m_far)
                        if m_near * n_near != 0:
                            e_near += (w_near / n_near) * (v_near / m_near)
        if e_far - e_near != 0:
            out[i] = (e_far - e) / (e_far - e_near)
    return out


def compute_sdp_reg_cat(X, fX, tX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb):
    """Discrete variables: expectations over the data that equals the sample on S."""
    part = partition_leaves_trees
    out = np.zeros((X.shape[0]))
    for i in range(X.shape[0]):
        s = 0
        s_far = 0
        s_near = 0
        for j in range(data.shape[0]):
            if same(X, i, data, j, S, S.shape[0]):
                s += 1
                if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                    s_far += 1
                else:
                    s_near += 1
        e = 0
        e_far = 0
        e_near = 0
        for b in range(values.shape[0]):
            for l in range(leaves_nb[b]):
                q = 0
                q_far = 0
                q_near = 0
                for j in range(data.shape[0]):
                    if same(X, i, data, j, S, S.shape[0]) and in_leaf(data, j, part, b, l, X.shape[1]):
                        q += 1
                        if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                            q_far += 1
                        else:
                            q_near += 1
                f = values[b, leaf_idx_trees[b, l], 0]
                if inside(X, i, S, S.shape[0], part, b, l):
                    if s != 0:
                        e += q * (f * f - 2 * fX[i] * f) / s
                    if s_far != 0:
                        e_far += q_far * (f * f - 2 * fX[i] * f) / s_far
                    if s_near != 0:
                        e_near += q_near * (f * f - 2 * fX[i] * f) / s_near
                for c in range(values.shape[0]):
                    if c != b:
                        for k in range(leaves_nb[c]):
                            r = 0
                            r_far = 0
                            r_near = 0
                            for j in range(data.shape[0]):
                                if same(X, i, data, j, S, S.shape[0]) and in_leaf(data, j, part, b, l, X.shape[1]) and \
                                        in_leaf(data, j, part, c, k, X.shape[1]):
                                    r += 1
                                    if (fX[i] - y_pred[j]) * (fX[i] - y_pred[j]) > tX:
                                        r_far += 1
                                    else:
                                        r_near += 1
                            g = values[c, leaf_idx_trees[c, k], 0]
                            if both(X, i, S, S.shape[0], part, b, l, c, k):
                                if s != 0:
                                    e += r * f * g / s
                                if s_far != 0:
                                    e_far += r_far * f * g / s_far
                                if s_near != 0:
                                    e_near += r_near * f * g / s_near
        if e_far - e_near != 0:
            out[i] = (e_far - e) / (e_far - e_near)
    return out
