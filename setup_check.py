"""setup: nothing to build; confirms that the installed tools the checks rely on are there"""
import shutil, sys, z3, cvc5
sys.exit(0 if shutil.which("clang++-18") else 1)
