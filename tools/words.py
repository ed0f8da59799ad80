"""The numbers and texts that stand in the sources of the library.  They are only candidates for input values: a decoder that
treats one particular value in a particular way has to name that value somewhere."""
import os, re


def cut_tests(s):
    m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', s)
    return s[:m.start()] if m else s


def mine(root):
    nums, texts = set(), set()
    for d, _, fs in sorted(os.walk(os.path.join(root, 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            s = cut_tests(open(os.path.join(d, f), encoding='utf-8', errors='replace').read())
            s = re.sub(r'/\*.*?\*/', ' ', re.sub(r'//[^\n]*', ' ', s), flags=re.S)
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s):
                try:
                    t = m.group(1).encode('latin-1', 'ignore').decode('unicode_escape').encode('utf-8')
                except UnicodeDecodeError:
                    continue
                if t and len(t) <= 64 and b'\0' not in t:
                    texts.add(t)
            s = re.sub(r'"(?:[^"\\]|\\.)*"', ' ', s)
            for m in re.finditer(r"b?'([^'\\])'", s):
                texts.add(m.group(1).encode())
                nums.add(ord(m.group(1)))
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)', s):
                t = m.group(1).replace('_', '')
                try:
                    n = int(t, 0) if not re.match(r'0\d', t) else int(t)
                except ValueError:
                    continue
                if n < 1 << 64:
                    nums.add(n)
            for m in re.finditer(r'\b1(?:u\d+|usize)?\s*<<\s*(\d+)', s):
                if int(m.group(1)) < 64:
                    nums.add(1 << int(m.group(1)))
    return sorted(nums), sorted(texts)


if __name__ == '__main__':
    n, t = mine('/repo')
    print(len(n), [x for x in n if x > 255], len(t))
    print([x for x in n if x < 256])
