"""Source transformations that let code for absent hardware run here. Each copies /repo/include and leaves /repo alone."""
import os, re, shutil


def _skip_back(s, i):
    """Start of the expression statement that ends at s[i]: right after the previous ';', '{' or '}' (or a comment's end)."""
    j = i
    while j > 0 and s[j - 1] not in ";{}":
        j -= 1
    return j


def rewrite_launches(text):
    """kernel<...><<<grid, block>>>(args)  ->  ::cuda_emu::launch(grid, block, [&](auto... a) { kernel<...>(a...); })(args)"""
    out = ""
    while True:
        i = text.find("<<<")
        if i < 0:
            return out + text
        k = text.find(">>>", i)
        if k < 0:
            return out + text
        cfg = text[i + 3:k]
        j = _skip_back(text, i)
        head = text[j:i]
        # preprocessor directives in front of the statement stay where they are
        k2 = 0
        for m in re.finditer(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*\n", head, re.M):
            k2 = m.end()
        j, head = j + k2, head[k2:]
        lead = head[:len(head) - len(head.lstrip())]
        kernel = head.strip()
        # drop control flow in front of a brace-less statement, e.g. "if (n > 0) kernel<<<...>>>"
        m = re.match(r"((?:else\s+|(?:if|for|while)\s*\((?:[^()]|\([^()]*\))*\)\s*)*)(.*)$", kernel, re.S)
        ctrl, kernel = m.group(1), m.group(2)
        out += text[:j] + lead + ctrl + "::cuda_emu::launch([&](auto... cuda_emu_a) { " + kernel + "(cuda_emu_a...); }, " + cfg + ")"
        text = text[k + 3:]


def cuda(repo, target):
    src = os.path.join(repo, "include")
    for d, ds, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.join(target, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            try:
                text = open(p, encoding="utf-8").read()
            except UnicodeDecodeError:
                shutil.copyfile(p, q)
                continue
            with open(q, "w", encoding="utf-8") as fh:
                # comments could contain launches; they are stripped from transformed files only
                if "<<<" in text:
                    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
                    text = re.sub(r"//[^\n]*", "", text)
                    text = rewrite_launches(text)
                fh.write(text)
