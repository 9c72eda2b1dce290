import json
import sys

from .worker import create_tables, setup_django

setup_django(json.load(open(sys.argv[1])))
create_tables()
