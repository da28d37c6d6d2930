"""setup: builds the extraction tool (every check rebuilds it when it is missing)"""
from . import front
front.build_tool()
print("extraction tool ready")
