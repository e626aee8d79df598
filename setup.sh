#!/bin/bash
# builds the MIR dump driver and warms the dependency build; offline
cd "$(dirname "$0")" && exec python3 -c 'from sa import common; import shutil; common.build_driver(); shutil.rmtree(common.dump())'
