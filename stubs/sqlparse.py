"""Stand-in for the sqlparse package: no parsing, one clause a line."""
import re


class tokens:
    class Keyword:
        DML = 'DML'
    Whitespace = 'Whitespace'


class sql:
    class Function:
        pass

    class Identifier:
        pass

    class IdentifierList:
        pass


class Token:
    def __init__(self, text):
        self.text = text

    def match(self, ttype, values, regex=False):
        return False


class Statement:
    def __init__(self, text):
        self.tokens = [Token(text)]


def parse(text):
    return [Statement(text)]


def format(text, **kwargs):
    return re.sub(r'\s+(?=(?:FROM|WHERE|AND|OR|SET|VALUES)\b)', '\n', text,
                  flags=re.I)
