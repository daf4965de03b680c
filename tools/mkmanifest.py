#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED are the properties with a check."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]

DOC = "TLA+ specification of the build (Pipeline.tla, Author.tla) checked with TLC; every behaviour replayed into the real code and compared"
DOCNOTE = ("TLC writes every document up to a bounded size from a set of pieces chosen for the property, and takes generated documents of larger size, "
           "runs the specified build on each with the design invariants checked in every state, and the real code has to produce the specified result ({what}). "
           "Exhaustive only within the bounds listed in the evidence; trusts the specification, TLC, the normalisation of HTML in the harness, and that test plugins stand for all plugins.")
WHAT = {
 'C01': 'content tree, calls and errors', 'C02': 'content tree and rendered lines', 'C03': 'tree, pages, index, calls',
 'C04': 'everything, and equal for LF and CRLF', 'C05': 'log of calls with arguments, and results', 'C06': 'content tree before and after rendering, pages',
 'C07': 'which error, at which stage, after which calls', 'C08': 'file, line and column, printed report, marked part of the error page',
 'C09': 'section tree with paths, plugins, styles, partials', 'C10': 'titles and tags', 'C11': 'targets of references or the error with similar and ambiguous tags',
 'C12': 'links of pages and index, each of which is also followed', 'C13': 'pages written and their content', 'C14': 'numbers and tables of contents',
 'C15': 'content with and without aux', 'C16': 'next and previous of every section, rendered navigation', 'C17': 'tokens of the pages as an HTML parser reads them',
 'C18': 'tokens of the pages', 'C19': 'pages or the error', 'C20': 'bytes of the text pages', 'C21': 'entries of the search index',
 'C22': 'bytes and errors of repeated builds', 'C33': 'pages rendered with templates which show what they are told', 'C30': 'pages, index or error', 'C31': 'termination with output or an error that can be shown',
}
CLAIMED = {}
for k, v in WHAT.items():
    CLAIMED[k] = (DOC, DOCNOTE.format(what=v))
exec(open(here + '/tools/manifest_more.py').read()) if os.path.exists(here + '/tools/manifest_more.py') else None

checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i}', 'evidence_file': f'evidence/{i}.json',
                       'technique': CLAIMED[i][0], 'level': 'model_checking', 'level_note': CLAIMED[i][1]})
    else:
        na.append({'property': i, 'reason': 'the specification and its conformance check are not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: everything is reachable through the public API of vito/booklit. Each check builds the harness against /repo in a scratch directory. Genuine defects: known-findings.txt.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
