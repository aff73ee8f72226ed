"""Imported by the zygotes of C11."""
from sim import jobs_rst

jobs_rst.prepare()
