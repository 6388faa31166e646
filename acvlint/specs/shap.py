"""What a leaf contributes to the Shapley values of the variables on its path, one plain function each.

va_id lists the players (variables, or groups), node[va][l] the players on the path to leaf l without player va; the
coalition `counter` holds player ci of that list when its bit is set.  Variables that are not on the path do not change
the probability of the leaf, so their coalitions are counted in the weight: the sum over l.  Never run, only read.
"""
import numpy as np


def inside(x, i, S, size, part, b, l):
    out = 0
    for s in range(size):
        if x[i, S[s]] > part[b, l, S[s], 1] or x[i, S[s]] <= part[b, l, S[s], 0]:
            out += 1
    return out == 0


def in_leaf(x, i, part, b, l, m):
    out = 0
    for s in range(m):
        if x[i, s] > part[b, l, s, 1] or x[i, s] <= part[b, l, s, 0]:
            out += 1
    return out == 0


def in_group(x, i, group, part, b, l):
    out = 0
    for s in range(group.size()):
        if x[i, group[s]] > part[b, l, group[s], 1] or x[i, group[s]] <= part[b, l, group[s], 0]:
            out += 1
    return out == 0


def weight(m, size, va_size):
    """m players in all, `size` others on the path, va_size of them in the coalition."""
    w = 1 / binomialC(m - 1, va_size)
    for l in range(1, m - size):
        w += binomialC(m - size - 1, l) / binomialC(m - 1, l + va_size)
    return w


def shap(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, va_id, node):
    part = partition_leaves_trees
    m = X.shape[1]
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    S = np.zeros(m, dtype=int)
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            lm = 0
            for j in range(data.shape[0]):
                if in_leaf(data, j, part, b, leaf, data.shape[1]):
                    lm += 1
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        va_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                                va_size += 1
                        lm_s = 0
                        lm_si = 0
                        for j in range(data.shape[0]):
                            if inside(data, j, S, S_size, part, b, leaf):
                                lm_s += 1
                                if in_group(data, j, va_id[va], part, b, leaf):
                                    lm_si += 1
                        for i in range(X.shape[0]):
                            p_s = 0
                            p_si = 0
                            if S_size == 0:
                                p_s = lm / data.shape[0]
                            elif inside(X, i, S, S_size, part, b, leaf) and lm_s != 0:
                                p_s = lm / lm_s
                            if inside(X, i, S, S_size, part, b, leaf) and in_group(X, i, va_id[va], part, b, leaf) and lm_si != 0:
                                p_si = lm / lm_si
                            w = weight(m, node[va][leaf].size(), va_size)
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += w * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf], k]
    return phi / m


def shap_cache(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, lm, lm_s, lm_si, va_id, node):
    """The same with the counts of data points of the cache."""
    part = partition_leaves_trees
    m = X.shape[1]
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    S = np.zeros(m, dtype=int)
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        va_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                                va_size += 1
                        for i in range(X.shape[0]):
                            p_s = 0
                            p_si = 0
                            if S_size == 0:
                                p_s = lm[b, leaf] / data.shape[0]
                            elif inside(X, i, S, S_size, part, b, leaf) and lm_s[b, va, leaf, counter] != 0:
                                p_s = lm[b, leaf] / lm_s[b, va, leaf, counter]
                            if inside(X, i, S, S_size, part, b, leaf) and in_group(X, i, va_id[va], part, b, leaf) and lm_si[b, va, leaf, counter] != 0:
                                p_si = lm[b, leaf] / lm_si[b, va, leaf, counter]
                            w = weight(m, node[va][leaf].size(), va_size)
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += w * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf], k]
    return phi / m


def shap_normalized(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, va_id, node):
    """The probabilities of the leaves divided by their sum over the leaves of the tree."""
    part = partition_leaves_trees
    m = X.shape[1]
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    S = np.zeros(m, dtype=int)
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            lm = 0
            for j in range(data.shape[0]):
                if in_leaf(data, j, part, b, leaf, data.shape[1]):
                    lm += 1
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        va_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                                va_size += 1
                        lm_s = 0
                        lm_si = 0
                        for j in range(data.shape[0]):
                            if inside(data, j, S, S_size, part, b, leaf):
                                lm_s += 1
                                if in_group(data, j, va_id[va], part, b, leaf):
                                    lm_si += 1
                        for i in range(X.shape[0]):
                            n_s = 0
                            n_si = 0
                            for leaf2 in range(leaves_nb[b]):
                                of = 0
                                of_s = 0
                                of_si = 0
                                for j in range(data.shape[0]):
                                    if in_leaf(data, j, part, b, leaf2, data.shape[1]):
                                        of += 1
                                    if inside(data, j, S, S_size, part, b, leaf2):
                                        of_s += 1
                                        if in_group(data, j, va_id[va], part, b, leaf2):
                                            of_si += 1
                                if inside(X, i, S, S_size, part, b, leaf2):
                                    if of_s != 0:
                                        n_s += of / of_s
                                    if in_group(X, i, va_id[va], part, b, leaf2) and of_si != 0:
                                        n_si += of / of_si
                            p_s = 0
                            p_si = 0
                            if S_size == 0:
                                p_s = lm / data.shape[0]
                            elif inside(X, i, S, S_size, part, b, leaf) and n_s * lm_s != 0:
                                p_s = lm / (lm_s * n_s)
                            if inside(X, i, S, S_size, part, b, leaf) and in_group(X, i, va_id[va], part, b, leaf) and n_si * lm_si != 0:
                                p_si = lm / (lm_si * n_si)
                            w = weight(m, node[va][leaf].size(), va_size)
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += w * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf], k]
    return phi / m


def shap_normalized_cache(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, lm, lm_s, lm_si, va_id, node):
    part = partition_leaves_trees
    m = X.shape[1]
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    S = np.zeros(m, dtype=int)
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        va_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                                va_size += 1
                        for i in range(X.shape[0]):
                            n_s = 0
                            n_si = 0
                            for leaf2 in range(leaves_nb[b]):
                                if inside(X, i, S, S_size, part, b, leaf2):
                                    if lm_s[b, va, leaf, leaf2, counter] != 0:
                                        n_s += lm[b, va, leaf, leaf2, counter] / lm_s[b, va, leaf, leaf2, counter]
                                    if in_group(X, i, va_id[va], part, b, leaf2) and lm_si[b, va, leaf, leaf2, counter] != 0:
                                        n_si += lm[b, va, leaf, leaf2, counter] / lm_si[b, va, leaf, leaf2, counter]
                            p_s = 0
                            p_si = 0
                            if S_size == 0:
                                p_s = lm[b, va, leaf, leaf, counter] / data.shape[0]
                            elif inside(X, i, S, S_size, part, b, leaf) and n_s * lm_s[b, va, leaf, leaf, counter] != 0:
                                p_s = lm[b, va, leaf, leaf, counter] / (lm_s[b, va, leaf, leaf, counter] * n_s)
                            if inside(X, i, S, S_size, part, b, leaf) and in_group(X, i, va_id[va], part, b, leaf) \
                                    and n_si * lm_si[b, va, leaf, leaf, counter] != 0:
                                p_si = lm[b, va, leaf, leaf, counter] / (lm_si[b, va, leaf, leaf, counter] * n_si)
                            w = weight(m, node[va][leaf].size(), va_size)
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += w * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf], k]
    return phi / m


def shap_acv(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, va_id, node, N_star):
    """Active Shapley values: the variables N_star are null players, known in every coalition but the empty one."""
    part = partition_leaves_trees
    m = va_id.size()
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    S = np.zeros(X.shape[1], dtype=int)
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            lm = 0
            for j in range(data.shape[0]):
                if in_leaf(data, j, part, b, leaf, data.shape[1]):
                    lm += 1
            for va in range(va_id.size()):
                if va_id[va] not in node[va][leaf]:
                    lm_star = 0
                    for j in range(data.shape[0]):
                        if inside(data, j, N_star, N_star.shape[0], part, b, leaf):
                            lm_star += 1
                    for i in range(X.shape[0]):
                        p_si = 0
                        if inside(X, i, N_star, N_star.shape[0], part, b, leaf) and lm_star != 0:
                            p_si = lm / lm_star
                        for nv in range(va_id[va].size()):
                            for k in range(values.shape[2]):
                                phi[i, va_id[va][nv], k] += (p_si - lm / data.shape[0]) * values[b, leaf_idx_trees[b, leaf], k]
                else:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        va_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                                va_size += 1
                        for s in range(N_star.shape[0]):
                            S[S_size + s] = N_star[s]
                        lm_s = 0
                        lm_si = 0
                        for j in range(data.shape[0]):
                            if inside(data, j, S, S_size + N_star.shape[0], part, b, leaf):
                                lm_s += 1
                                if in_group(data, j, va_id[va], part, b, leaf):
                                    lm_si += 1
                        for i in range(X.shape[0]):
                            p_s = 0
                            p_si = 0
                            if inside(X, i, S, S_size + N_star.shape[0], part, b, leaf):
                                if lm_s != 0:
                                    p_s = lm / lm_s
                                if in_group(X, i, va_id[va], part, b, leaf) and lm_si != 0:
                                    p_si = lm / lm_si
                            w0 = 1 / binomialC(m - 1, va_size)
                            w = weight(m, node[va][leaf].size(), va_size) - w0
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    if S_size == 0:
                                        phi[i, va_id[va][nv], k] += (p_si - lm / data.shape[0] + w * (p_si - p_s)) * values[b, leaf_idx_trees[b, leaf], k]
                                    else:
                                        phi[i, va_id[va][nv], k] += (w0 + w) * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf], k]
    return phi / m


def leaves_cache(data, values, partition_leaves_trees, leaves_nb, scaling, va_id, node):
    """Numbers of data points of each leaf: all, compatible with the coalition, compatible with the player as well."""
    part = partition_leaves_trees
    S = np.zeros(data.shape[1], dtype=int)
    lm = np.zeros((values.shape[0], part.shape[1]))
    lm_s = np.zeros((values.shape[0], va_id.size(), part.shape[1], 2 ** scaling))
    lm_si = np.zeros((values.shape[0], va_id.size(), part.shape[1], 2 ** scaling))
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            for j in range(data.shape[0]):
                if in_leaf(data, j, part, b, leaf, data.shape[1]):
                    lm[b, leaf] += 1
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                        for j in range(data.shape[0]):
                            if inside(data, j, S, S_size, part, b, leaf):
                                lm_s[b, va, leaf, counter] += 1
                                if in_group(data, j, va_id[va], part, b, leaf):
                                    lm_si[b, va, leaf, counter] += 1
    return lm, lm_s, lm_si


def leaves_cache_normalized(data, values, partition_leaves_trees, leaves_nb, scaling, va_id, node):
    """The same in every leaf of the tree, for the coalitions on the path to each leaf."""
    part = partition_leaves_trees
    S = np.zeros(data.shape[1], dtype=int)
    lm = np.zeros((values.shape[0], va_id.size(), part.shape[1], part.shape[1], 2 ** scaling))
    lm_s = np.zeros((values.shape[0], va_id.size(), part.shape[1], part.shape[1], 2 ** scaling))
    lm_si = np.zeros((values.shape[0], va_id.size(), part.shape[1], part.shape[1], 2 ** scaling))
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            for va in range(va_id.size()):
                if va_id[va] in node[va][leaf]:
                    for counter in range(2 ** node[va][leaf].size()):
                        S_size = 0
                        for ci in range(node[va][leaf].size()):
                            if (counter & (1 << ci)) > 0:
                                for cj in range(node[va][leaf][ci].size()):
                                    S[S_size] = node[va][leaf][ci][cj]
                                    S_size += 1
                        for leaf2 in range(leaves_nb[b]):
                            for j in range(data.shape[0]):
                                if in_leaf(data, j, part, b, leaf2, data.shape[1]):
                                    lm[b, va, leaf, leaf2, counter] += 1
                                if inside(data, j, S, S_size, part, b, leaf2):
                                    lm_s[b, va, leaf, leaf2, counter] += 1
                                    if in_group(data, j, va_id[va], part, b, leaf2):
                                        lm_si[b, va, leaf, leaf2, counter] += 1
    return lm, lm_s, lm_si


def acv_adap(X, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, node_idx_trees, S_star, N_star, size, C, num_threads):
    """One sample at a time, each with its own active and null variables; plain Shapley values when all are active."""
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            for k in range(values.shape[2]):
                if size[i] != X.shape[1]:
                    phi[i, j, k] = single_shap_values_acv_leaves(
                        X[i], data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, node_idx_trees,
                        S_star[i, :size[i]], N_star[i, size[i]:], C, num_threads)[j, k]
                else:
                    phi[i, j, k] = single_shap_values(
                        X[i], data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, node_idx_trees,
                        C, num_threads)[j, k]
    return phi


def players(X, data, values, leaves_nb, node_idx_trees, C):
    """Who plays: each variable for itself, or the groups of C, each group where its first variable stands; on the path to a
    leaf, the players with a variable there; the others of them for each player."""
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    if C[0].size() != 0:
        groups = list(C)
        for ci in range(C.size()):
            for cj in range(C[ci].size()):
                grouped.push_back(C[ci][cj])
        for i in range(X.shape[1]):
            if i not in grouped:
                alone.push_back(i)
                va_id.push_back([i])
            else:
                for ci in range(groups.size()):
                    if i in groups[ci]:
                        va_id.push_back(groups[ci])
                        std_remove(groups.begin(), groups.end(), groups[ci])
                        groups.pop_back()
                        break
    else:
        for i in range(X.shape[1]):
            va_id.push_back([i])
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            found.clear()
            if C[0].size() != 0:
                left = list(C)
                for nv in range(node_idx_trees[b][leaf].size()):
                    add = 0
                    for ns in range(alone.size()):
                        if node_idx_trees[b][leaf][nv] == alone[ns]:
                            add = 1
                            found.push_back([node_idx_trees[b][leaf][nv]])
                            break
                    if add == 0:
                        for ci in range(left.size()):
                            for cj in range(left[ci].size()):
                                if left[ci][cj] == node_idx_trees[b][leaf][nv]:
                                    add = 1
                                    found.push_back(left[ci])
                                    break
                            if add == 1:
                                std_remove(left.begin(), left.end(), left[ci])
                                left.pop_back()
                                break
                path = found
            else:
                path.clear()
                for i in range(node_idx_trees[b][leaf].size()):
                    path.push_back([node_idx_trees[b][leaf][i]])
            for va in range(va_id.size()):
                node[va][leaf] = path
                if va_id[va] in node[va][leaf]:
                    std_remove(node[va][leaf].begin(), node[va][leaf].end(), va_id[va])
                    node[va][leaf].pop_back()
                    for counter in range(2 ** node[va][leaf].size()):
                        for i in range(X.shape[0]):
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += values[b, leaf, k]
    return phi


def players_acv(X, data, values, leaves_nb, node_idx_trees, S_star, N_star, C):
    """The same among the active variables: the null ones are taken off the paths."""
    phi = np.zeros((X.shape[0], X.shape[1], values.shape[2]))
    if C[0].size() != 0:
        groups = list(C)
        grouped = [C[ci][cj] for ci in range(C.size()) for cj in range(C[ci].size())]
        for i in range(S_star.shape[0]):
            if S_star[i] not in grouped:
                alone.push_back(S_star[i])
                va_id.push_back([S_star[i]])
            else:
                for ci in range(groups.size()):
                    if S_star[i] in groups[ci]:
                        va_id.push_back(groups[ci])
                        std_remove(groups.begin(), groups.end(), groups[ci])
                        groups.pop_back()
                        break
    else:
        va_id = [[S_star[i]] for i in range(S_star.shape[0])]
    for b in range(values.shape[0]):
        for leaf in range(leaves_nb[b]):
            found.clear()
            for i in range(N_star.shape[0]):
                if N_star[i] in node_idx_trees[b][leaf]:
                    std_remove(node_idx_trees[b][leaf].begin(), node_idx_trees[b][leaf].end(), N_star[i])
                    node_idx_trees[b][leaf].pop_back()
            if C[0].size() != 0:
                left = list(C)
                for nv in range(node_idx_trees[b][leaf].size()):
                    add = 0
                    for ns in range(alone.size()):
                        if node_idx_trees[b][leaf][nv] == alone[ns]:
                            add = 1
                            found.push_back([node_idx_trees[b][leaf][nv]])
                            break
                    if add == 0:
                        for ci in range(left.size()):
                            for cj in range(left[ci].size()):
                                if left[ci][cj] == node_idx_trees[b][leaf][nv]:
                                    add = 1
                                    found.push_back(left[ci])
                                    break
                            if add == 1:
                                std_remove(left.begin(), left.end(), left[ci])
                                left.pop_back()
                                break
                path = found
            else:
                path.clear()
                for i in range(node_idx_trees[b][leaf].size()):
                    path.push_back([node_idx_trees[b][leaf][i]])
            for va in range(va_id.size()):
                node[va][leaf] = path
                if va_id[va] in node[va][leaf]:
                    std_remove(node[va][leaf].begin(), node[va][leaf].end(), va_id[va])
                    node[va][leaf].pop_back()
                    for counter in range(2 ** node[va][leaf].size()):
                        for i in range(X.shape[0]):
                            for nv in range(va_id[va].size()):
                                for k in range(values.shape[2]):
                                    phi[i, va_id[va][nv], k] += values[b, leaf, k]
    return phi
