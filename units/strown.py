from build import RUNTIME
SOURCES = RUNTIME
HARNESS = {}
