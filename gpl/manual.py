"""Reads the error tables of the reference manual (doc/*.tex): for every documented built-in, its
templates and the list of (condition, error term)."""
import os
import re

from . import prep
from .prep import AnalysisBroken


def detex(s):
    s = re.sub(r'(?<!\\)%.*', '', s)
    s = re.sub(r'\\label\{[^}]*\}', '', s)
    for _ in range(4):
        s = re.sub(r'\\(?:texttt|Param|emph|textit|textbf|IdxPB|IdxPBD|IdxPK|IdxPKD|Idx\w*|RefSP|ref|mbox)\{([^{}]*)\}', r'\1', s)
    s = s.replace('\\_', '_').replace('\\{', '{').replace('\\}', '}').replace('\\%', '%').replace('\\&', '&').replace('\\#', '#')
    s = s.replace('\\verb|', '').replace('$<$', '<').replace('$>$', '>').replace('\\^{}', '^').replace('\\textbackslash', '\\')
    s = re.sub(r'\$([^$]*)\$', r'\1', s)
    s = s.replace('\\lt', '<').replace('\\leq', '=<').replace('\\bs', '\\').replace('~', ' ')
    return re.sub(r'\s+', ' ', s).strip()


class Section:
    def __init__(self, title, preds):
        self.title = title
        self.preds = preds
        self.templates = []
        self.errors = []
        self.body = ''


def args_of(tex, i):
    """the brace group starting at tex[i] == '{' -> (content, end)"""
    d = 0
    j = i
    while j < len(tex):
        if tex[j] == '\\':
            j += 2
            continue
        if tex[j] == '{':
            d += 1
        elif tex[j] == '}':
            d -= 1
            if d == 0:
                return tex[i + 1:j], j + 1
        j += 1
    raise AnalysisBroken('unbalanced braces in the manual')


def sections(path=None):
    res = []
    for n in ('pl-bips.tex', 'fd-cstr.tex'):
        p = os.path.join(prep.REPO, 'doc', n)
        if not os.path.exists(p):
            raise AnalysisBroken('manual source %s missing' % p)
        tex = open(p, encoding='latin-1').read()
        cuts = [m.start() for m in re.finditer(r'\\(?:sub)*section\{', tex)] + [len(tex)]
        for a, b in zip(cuts, cuts[1:]):
            chunk = tex[a:b]
            i = chunk.index('{')
            title, e = args_of(chunk, i)
            preds = []
            for m in re.finditer(r'([a-z#\\]?[A-Za-z0-9_$#=<>\\/*+@.!,;|-]*[^\s,{}()/]|\S+?)/(\d+)', detex(title)):
                pass
            dt = detex(title)
            for tok in re.split(r',\s+|\s+-\s+|\s+', dt):
                m = re.match(r'^\(?(.+?)\)?/(\d+)$', tok.strip())
                if m:
                    preds.append((m.group(1).strip('()'), int(m.group(2))))
            s = Section(dt, preds)
            body = chunk[e:]
            m = re.search(r'\\begin\{Templates\w*\}(.*?)\\end\{Templates', body, re.S)
            if m:
                for t in re.split(r'\\\\|&', re.sub(r'^\s*(\{[^}]*\})?', '', m.group(1))):
                    t = detex(t)
                    if t:
                        s.templates.append(t)
            pos = 0
            while True:
                k = body.find('\\ErrCond{', pos)
                if k < 0:
                    break
                cond, e2 = args_of(body, k + 8)
                m2 = re.compile(r'\s*\\ErrTerm(Rm)?\{').match(body, e2)
                if m2:
                    term, e3 = args_of(body, m2.end() - 1)
                    s.errors.append((detex(cond), detex(term)))
                    pos = e3
                else:
                    pos = e2
            s.body = body
            res.append(s)
    return res
