from . import keys, equality, calendar, construct, parse, update, query, parsing, cli, lexical, panics, steady
CHECKS = {}
for m in (keys, equality, calendar, construct, parse, update, query, parsing, cli, lexical, panics, steady):
    CHECKS.update(m.CHECKS)
