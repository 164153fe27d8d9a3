#!/usr/bin/env python3
"""Writes known_findings.json from the table of repairs"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = """P10 c093b98 "1-2" and "1+2" without spaces: a sign after any number was part of the number
P22 6b4b777 a second Parse with the same parser instance saw heredoc, line and name state of the first
P19 78e47ad negative lengths of step properties, returns and iteration parameters
P20 6090484 token after a word that names a step style was scanned twice when workflow is enabled
P19 b38a08d steps and step properties started after their first token
P20 062b920 parameters, returns and iteration that are not parameter lists caused a panic
P19 afb3c6f position beyond the end of the source when a heredoc end tag is last
P13 3227eb2 text line starting with '-' or '|' changed newline suppression and margin of a heredoc
P01 64ce432 panic on an empty heredoc with suppressed newline
P13 7fab575 heredoc text start was missed when the tag line has a slash or block comment
P19 cb658a9 a block started at its second token
P19 56945d4 location of an interpolation that isn't first in its string
P18 0d54232 token after an interpolated string or heredoc was reported at the end of the interpolation
P13 315b65a text of a pending heredoc was parsed as code when a pipe ends its line
P05 236e998 lexer state was not restored when a resource body without title is scanned again
P34 4c3eacc the simple lexer started over at the first newline
P01 fef718c panic when the hash of a type alias is the operand of another expression
P23 4cbac95 line index was built lazily without synchronization, ended at NUL and panicked on invalid UTF-8
P11 7ab6202 a source was silently truncated at its first NUL character
P11 1422157 a valid U+FFFD character was reported as invalid unicode
P26 4aa8181 zeroes were stripped from the exponent of floats
P11 df005ce a hexadecimal escape without a leading hex digit was read as NUL
P10 2233b78 the value of a number that is out of range was silently changed
P28 0b5d807 panic on an array or hash as key in a literal hash, and false duplicate keys
P24 14d7c1f paths to the contents of a plan had an expression that isn't in the tree
P29 82cf1c0 plans were not validated
P14 8d9681c statements other than plain expressions were rejected in EPP without parameters
P01 6bcee95 the parsing validator panicked on invalid unicode
P25 f3fc819 panic when printing a parameter with an empty or qualified name
P12 5d39ea2 variables named as a keyword, followed by a dash, or numeric were rejected in strings
P19 4882cb1 end of interpolated variable expressions
P33 fdd53ce the command line tool reported each workflow step as an error and panicked on missing files
P12 abfaf93 first token of an interpolation depended on the token before the string
P17 2908c64 unterminated regexp ending in a backslash was reported as a backtick string
P13 ac3b2e6 heredoc without tag used its syntax or flags as the tag
P14 d36b60a EPP without parameters said that parameters were specified
P17 1d28100 extraneous comma was not reported when the block ends with a statement call
P01 2cf6d1a numeric variable as step iteration name caused a panic
P05 74e255c trailing expression in a resource without title was silently dropped
P29 d5e4a8d message about captures-rest lacked the parameter name
P29 58301f2 parenthesized expression and function call had no label
P29 78123d3 empty collector query was reported as an illegal query
P29 dc590ad functions defining a step were reported as not being at top level
P29 dd0b0e5 a lambda was called Positioned in messages
P27 6558b50 the code of a reported issue was not a string in its PN
P38 f3a2670 Demote panicked in a validator that isn't one of the checkers
P12 1688337 "${a[1][2]}" and "${a.b[0]}": the name before nested accesses was not a variable
P03 f3dd9cd the method call in "$a.b[1]" was left as a named access instead of a call
P13 a5f605a a string with /* on the line of a heredoc declaration was reported as an unterminated comment
P14 458f0b5 -%> followed by a carriage return and a newline left both in the text
P13 6a5dd57 an escaped line break with a carriage return was not removed in spite of the L flag"""
json.dump({"known": [], "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in T.split("\n")]},
          open(os.path.join(root, "known_findings.json"), "w"), indent=1)
