"""Places in SQL where a parameter can stand: statements, operators, lists, literals, identifiers, comments, blocks, templates.

A conversion knows nothing of SQL, so none of them may make a difference; code that tries to be clever about SQL makes one.
"""
import itertools

PLACES = [
    ("", ""), ("SELECT ", ""), ("SELECT x WHERE y = ", ""), ("x IS ", ""), ("x IS NOT ", ""), ("x <> ", ""), ("x != ", ""), ("x=", ""), ("x <=> ", ""), ("x LIKE ", " ESCAPE '!'"),
    ("x LIKE '%' || ", " || '%'"), ("x IN ", ""), ("x IN (", ")"), ("x in(", ")"), ("x IN ( ", " )"), ("x NOT IN ", ""), ("x NOT IN (", ")"), ("(x, y) IN (", ")"), ("x = ANY(", ")"),
    ("x = ANY (ARRAY[", "])"), ("x BETWEEN ", " AND 2"), ("LIMIT ", ""), ("LIMIT 1 OFFSET ", ""), ("SELECT TOP ", " x"), ("INSERT INTO t VALUES (", ")"), ("INSERT INTO t (a, b) VALUES ", ";"),
    ("insert into t values(", ");"), ("REPLACE INTO t VALUES(1, ", ");"), ("UPDATE t SET x = ", " WHERE y"), ("DELETE FROM t WHERE x=", ""), ("MERGE INTO t USING s ON (x = ", ")"),
    ("CALL p(", ")"), ("EXEC p ", ""), ("{call p(", ")}"), ("{ts ", "}"), ("BEGIN p(", "); END;"), ("CREATE TABLE t (x DEFAULT ", ")"), ("PRAGMA x = ", ""), ("SET @x = ", ""), ("DECLARE @x INT = ", ";"),
    ("x := ", ""), ("p(x => ", ")"), ("INTERVAL ", " DAY"), ("CAST(", " AS int)"), ("x->>", ""), ("x || ", " || y"), ("ORDER BY ", " DESC"), ("GROUP BY ", ""), ("RETURNING x INTO ", ""),
    ("VALUES ", ""), ("VALUES (1, ", "), (2, 3)"), ("(", ")"), ("((", "))"), ("(\n", "\n)"), ("[", "]"), ("{", "}"), ("f(", ", 1)"), ("'", "'"), ("' ", " '"), ("'it''s ", "'"), ("'\\'", "'"), ('"', '"'),
    ('" ', ' "'), ("`", "`"), ("` ", " `"), ("$$ ", " $$"), ("$t$ ", " $t$"), ("$body$\n", "\n$body$"), ("E'", "'"), ("N'", "'"), ("X'", "'"), ("U&'", "'"), ("q'[", "]'"), ("q'{ ", " }'"), ("-- ", "\n"),
    ("--", ""), ("x -- ", "\n y"), ("# ", "\n"), ("// ", "\n"), ("/* ", " */"), ("/*", ""), ("/*+ ", " */"), ("/*! ", " */"), ("/*\n ", "\n */"), ("<!-- ", " -->"), ("{{ ", " }}"), ("{% ", " %}"), ("${", "}"),
    ("#{", "}"), ("<%= ", " %>"), ("[x ", " y]"), ("rem ", "\n"), ("\n", "\n"), ("\r\n", "\r\n"), ("\r", "\r"), ("; ", ";"), (";", "; "), ("GO\n", "\nGO\n"), ("DATE ", ""), ("10:30:05 + ", ""), ("x::int = ", "::int"),
    ("x = ", "::text"), ("x ? ", ""), ("x ?| ", ""), ("x @> ", ""), ("x @@ ", ""), ("x % ", " % 2"), ("%s ", " %s"), ("%% ", " %%"), ("50% ", ""), ("x & ", " | y"), ("-", ""), ("+", ""), ("NOT ", ""), ("~", ""), ("!", ""),
    ("\\", ""), ("\\ ", "\\"), ("\ufeff", ""), ("DELIMITER //\n", "//"), ("EXPLAIN ", ""), ("WITH x AS (", ") SELECT"), ("COPY t FROM ", ""), ("NULL ", " NULL"), ("CASE WHEN ", " THEN 1 END"), ("x = NULL OR x = ", ""),
    ("IF ", " THEN"), ("CURRENT_", ""), ("JSON '{\"a\": ", "}'"), ("'{a:", "}'"), ("x['", "']"), ("<xml a=\"", "\"/>"), ("http://x/", ""), ("user@", ""), ("C:\\", ""), ("#1 ", " #2"), ("@@ROWCOUNT = ", ""), ("dbo.", ""),
]


def alone(p):
    """Texts with one place."""
    for a, b in PLACES:
        yield a + p + b


def around(p):
    """A parameter before, inside and after a place, close by and at a distance."""
    for a, b in PLACES:
        for gap in ("", " ", " x ", "\n"):
            yield p + gap + a + p + b + gap + p
            yield a + gap + p + ", " + p + gap + b


def nested(p):
    """Places in places."""
    for (a, b), (c, d) in itertools.product(PLACES, repeat=2):
        yield a + c + p + d + b


def only(segs, keys, ordinal):
    """Whether the text asks for nothing but these keys (some places hold something that is a parameter in some styles)."""
    return ordinal or all(s[2] in keys for s in segs if s[0] == "P")
