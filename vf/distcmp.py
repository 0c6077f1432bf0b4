"""Which modules of lib/Distribution differ (as C token streams, comments/includes dropped) from src/?"""
import re, os
SECT = {'spline': ('spline.c', 'src/spline/spline.c', 'src/spline/spline.h'),
        'embedDB': ('embedDB.c', 'src/embedDB/embedDB.c', 'src/embedDB/embedDB.h'),
        'schema': ('schema.c', 'src/query-interface/schema.c', 'src/query-interface/schema.h'),
        'query': ('advancedQueries.c', 'src/query-interface/advancedQueries.c', 'src/query-interface/advancedQueries.h'),
        'util': ('embedDBUtility.c', 'lib/EmbedDB-Utility/embedDBUtility.c', 'lib/EmbedDB-Utility/embedDBUtility.h')}


def toks(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', '', s)
    s = '\n'.join(l for l in s.split('\n') if not re.match(r'\s*#\s*include', l))
    s = re.sub(r'EMBEDDB_LOOP\(\w+\)', ' ', s)
    return re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\s\w]', s)


def sections(text):
    parts = re.split(r'/\*{20,}(\w+\.[ch])\*{20,}/', text)
    out = {}
    for i in range(1, len(parts), 2):
        out[parts[i]] = parts[i + 1]
    return out


def compare(repo):
    diff = []
    try:
        c = sections(open(os.path.join(repo, 'lib/Distribution/embedDB.c'), errors='replace').read())
        h = sections(open(os.path.join(repo, 'lib/Distribution/embedDB.h'), errors='replace').read())
    except OSError:
        return sorted(SECT)
    for m, (n, src, hdr) in SECT.items():
        try:
            a = toks(open(os.path.join(repo, src), errors='replace').read())
            b = toks(c.get(n, ''))
            ha = toks(open(os.path.join(repo, hdr), errors='replace').read())
            hb = toks(h.get(n[:-2] + '.h', ''))
        except OSError:
            diff.append(m); continue
        if a != b or ha != hb:
            diff.append(m)
    return diff


if __name__ == '__main__':
    print(compare('/repo'))
