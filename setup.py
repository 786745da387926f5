"""setup_cmd: builds the fact extractor from tool/factdump.cpp."""
import sys
sys.path.insert(0, ".")
from sa import facts
facts.build_tool()
print("built")
