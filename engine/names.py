"""Splitting of demangled C++ names."""
from functools import lru_cache

_OPEN = "<([{"; _CLOSE = ">)]}"


def _skip_operator(s, i):
    """i at 'operator'; returns end index of the operator token"""
    j = i + 8
    if s.startswith("operator()", i): return i + 10
    if s.startswith("operator[]", i): return i + 10
    k = j
    while k < len(s) and s[k] in "<>=!+-*/%^&|~,": k += 1
    # templates following an operator: 'operator==<char>' ; 'operator< <'
    tok = s[j:k]
    for t in ("<<=", ">>=", "<=>", "->*", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "->", "<", ">", "+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", ","):
        if tok.startswith(t): return j + len(t)
    if s.startswith(" new[]", j): return j + 6
    if s.startswith(" delete[]", j): return j + 9
    if s.startswith(" new", j): return j + 4
    if s.startswith(" delete", j): return j + 7
    if j < len(s) and s[j] == " ":      # conversion operator
        k = j + 1; d = 0
        while k < len(s):
            if s[k] in "<": d += 1
            elif s[k] in ">": d -= 1
            elif s[k] == "(" and d == 0: break
            k += 1
        return k
    return j


@lru_cache(maxsize=None)
def split(dname):
    """-> (qualified name with templates, [parameter strings] or None)"""
    s = dname
    depth = 0; i = 0; start = 0; n = len(s)
    while i < n:
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")) and (i + 8 >= n or not (s[i + 8].isalnum() or s[i + 8] == "_")):
            i = _skip_operator(s, i); continue
        c = s[i]
        if c == "(" and depth == 0:
            if s.startswith("(anonymous namespace)", i): i += 21; continue
            if i == start or s.startswith("decltype", max(0, i - 8)) and s[i - 8:i] == "decltype":
                depth += 1; i += 1; continue
            # parameter list: find its end
            d = 0; j = i; parts = []; ps = i + 1
            while j < n:
                if s[j] in "<([{": d += 1
                elif s[j] in ">)]}":
                    if s[j] == ">" and s[j - 1] == "-": pass
                    else:
                        d -= 1
                        if d == 0: break
                elif s[j] == "," and d == 1:
                    parts.append(s[ps:j].strip()); ps = j + 1
                j += 1
            last = s[ps:j].strip()
            if last: parts.append(last)
            rest = s[j + 1:]
            if rest.startswith("::"):        # local entity: f(int)::{lambda}::operator()
                i = j + 1; continue
            if rest.startswith("const::") or rest.startswith(" const::"):
                i = j + 1 + rest.index("::"); continue
            return s[start:i], parts
        if c in _OPEN: depth += 1
        elif c in _CLOSE:
            if c == ">" and s[i - 1] == "-": pass
            else: depth -= 1
        elif c == " " and depth == 0:
            start = i + 1
        i += 1
    return s[start:] if "(" in s else s, None


@lru_cache(maxsize=None)
def base(dname):
    """qualified function name without template arguments"""
    q, _ = split(dname)
    out = []; d = 0; i = 0
    while i < len(q):
        if d == 0 and q.startswith("operator", i) and (i == 0 or q[i - 1] in ":~ "):
            j = _skip_operator(q, i); out.append(q[i:j]); i = j; continue
        c = q[i]
        if c in "<(": d += 1
        elif c in ">)":
            if not (c == ">" and q[i - 1] == "-"): d -= 1
        elif d == 0: out.append(c)
        i += 1
    return "".join(out).replace("[abi:cxx11]", "")


@lru_cache(maxsize=None)
def params(dname):
    return split(dname)[1]


if __name__ == "__main__":
    for x in ["oqpi::task_handle& std::vector<oqpi::task_handle, std::allocator<oqpi::task_handle> >::emplace_back<oqpi::task_handle const&>(oqpi::task_handle const&)",
              "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::empty() const",
              "bool std::operator==<int>(int, int)", "operator new(unsigned long)", "void Q<oqpi::task_handle>::push(oqpi::task_handle&&)",
              "oqpi::worker<Th, Nf, oqpi::scheduler<Q>, C>::start()::{lambda()#1}::operator()() const", "pthread_create",
              "decltype (auto) std::apply<int>(int&&)", "oqpi::task_handle::operator=(oqpi::task_handle&&)", "std::shared_ptr<int>::operator bool() const"]:
        print(base(x), params(x))
