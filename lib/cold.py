"""A fresh process that reads texts: prints the json list of what it reads (or of the class of the errors)."""
import json
import sys

import instrument
instrument.install()
from ieml.dictionary.script import script
from ieml.usl.usl import usl
from ieml.usl.decoration.parser.parser import PathParser

out = []
for kind, text in json.loads(sys.stdin.read()):
    try:
        out.append(str({'script': script, 'usl': usl, 'path': lambda t: PathParser().parse(t)}[kind](text)))
    except Exception as e:
        out.append('error ' + type(e).__name__)
print(json.dumps(out))
