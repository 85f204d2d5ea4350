"""Parsing leaves no text of a page behind."""
from prog import *
from terms import *
from grammar import Grammar

EXPLANATION = (
    "Every parser that the parser of a page is made of is read from the MIR as a term: functions and closures by what they "
    "return, nom's combinators by what they do with the parsers they are given. For each way a parser succeeds, each run of "
    "another parser in it has a result (what it made of the text) and a rest. Obligations: a result that is not used comes "
    "from a parser that can only take one delimiter, whitespace, line endings or nothing (or its result decides a branch, or "
    "it is the enumerator of a list item); a rest that is not used is empty, because the parser succeeds only at the end of "
    "its input, or is a sequence of elements one of which is text that ends only at a line ending or where another of the "
    "elements begins, in a part of the input that holds no line ending; the input is never moved forward but past what a "
    "parser took or the result holds; and nothing that can leave out a part (filter, skip, truncate, a range of a string "
    "but its margin of whitespace) is done to a result.")
ASSUMPTIONS = [
    "nom 6 behaves as documented (its combinators are a table here)",
    "a function that looks for line feeds in what it splits finds them",
    "the segments of a link after those that mean something are no part of it (as the tests of the repository have it); of several attributes with one name the last counts",
]


def run(P, R, tier):
    R.rule("dropped", "text whose result is not used is a delimiter, whitespace or a line ending", 95)
    R.rule("left", "text set aside is parsed to its end", 10)
    R.rule("line", "text set aside for elements of one line holds no line ending", 3)
    R.rule("skipped", "the input moves past nothing but what a parser took", 110)
    R.rule("lossy", "nothing leaves out a part of a result", 110)
    G = Grammar(P, R)
    page = "vimwiki_core::lang::parsers::vimwiki::page"
    if page not in P.bodies:
        R.fail("skipped", "page", "there is no parser of pages (%s)" % page)
        return
    G.run(mk("fn", page, page))
    R.check("left", G.total(mk("fn", page, page)), "page", "the parser of a page succeeds without taking all of its input")
    R.stats["parsers"] = len({p for p, _ in G.kept})
