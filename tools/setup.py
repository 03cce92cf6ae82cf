#!/usr/bin/env python3
"""nothing is compiled ahead (D05 compiles lib/crash.c as it runs): checks that the interpreter and the project's dependencies are there"""
import subprocess, sys, os
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([py, "-c", "import croniter, dateutil, yaml, jinja2, sqlite3"]))
