"""pyvc: a verification-condition generator for the Python subset jsons is written in.

The text that is verified is the text that runs: functions are taken from the
live modules imported from /repo, their source files are parsed with `ast` on
every run, and each statement is given its Python meaning over z3 terms.
"""
