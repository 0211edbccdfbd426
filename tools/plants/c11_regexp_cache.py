PROPERTY = 'C11'
NEEDS = 'two texts parsed one after the other, with a regular expression read at places whose next 16 characters are the same'
BREAKS = 'what a regular expression matched in an earlier text is used for a later one'
EDITS = [('richard/processor/parser/earley/EarleyParser.py', '''        part = text[start_index:]
        result = re.match(regexp, part)
        word = None
        if result:
            word = result.group(0)

        return word
''', '''        part = text[start_index:]
        key = (regexp, part[:16])
        if key not in self.matches:
            result = re.match(regexp, part)
            self.matches[key] = result.group(0) if result else None

        return self.matches[key]
'''), ('richard/processor/parser/earley/EarleyParser.py', '''    "Speech and Language Processing" (first edition) - Daniel Jurafsky & James H. Martin (Prentice Hall, 2000)
    """
''', '''    "Speech and Language Processing" (first edition) - Daniel Jurafsky & James H. Martin (Prentice Hall, 2000)
    """

    def __init__(self) -> None:
        self.matches = {}
''')]
DEMO = '''
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

g = SimpleGrammarRulesParser().parse_read_grammar([{"syn": "s(E1) -> 'look' 'up' /\\\\w+/", "sem": lambda a: []}])
p = EarleyParser()
for word in ("antidisestablishmentarian", "antidisestablishmentarianism"):
    r = p.parse(g, "look up " + word)
    assert [t.children[-1].form for t in r.products] == [word], (word, r.error_type, [str(t) for t in r.products])
print("ok")
'''
