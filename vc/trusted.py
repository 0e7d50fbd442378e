TRUSTED = {'*': ['clang 18 front end: the JSON AST is the program that is compiled (C++11, -DNDEBUG, LEARNLOG_USE_TLS, bundled fmt, Linux branch)',
                 'vc/ interpreter: C++ semantics of the AST subset met in the code; anything else makes the unit undecided, never proved',
                 'z3 (unknown answers retried with z3-new and cvc5)',
                 'vc/lib.py: contracts of the C++ standard library, libc, fmt and moodycamel functions that are called']}
ASSUME = {'*': ['loops are proved partially correct (termination is not proved)', 'memory allocation does not fail', 'no undefined behaviour outside the functions executed by the verifier', 'one object is not the source and the target of the same move']}
import os
for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools', 'notes.txt')):
    k, _, t = l.partition(':')
    if k.startswith('C'): ASSUME[k] = [x.strip() for x in t.strip().rstrip('.').split(';')]
