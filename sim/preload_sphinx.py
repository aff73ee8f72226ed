"""Imported by the zygotes of C19."""
from sim import jobs_sphinx

jobs_sphinx.prepare()
