"""Deductive verifier used by /verif: contracts on the real dedalus functions,
obligations generated by symbolic execution of the code imported from /repo."""
