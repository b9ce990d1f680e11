#!/usr/bin/env python3
"""Runs protoc and adds the Cord accessors newer protobuf releases have."""
import re
import subprocess
import sys

gen, proto = sys.argv[1], sys.argv[2]
r = subprocess.run(['protoc'] + sys.argv[3:] + ['--cpp_out=' + gen, proto])
if r.returncode:
    sys.exit(r.returncode)
h = gen + '/' + proto[:-len('.proto')] + '.pb.h'
s = open(h).read()
extra = '''
  bool ParseFromCord(const ::absl::Cord& c) { return this->ParseFromString(std::string(c)); }
  ::absl::Cord SerializeAsCord() const { return ::absl::Cord(this->SerializeAsString()); }
'''
s = re.sub(r'(\n  inline (\w+)\(\) : \2\(nullptr\) \{\})', r'\1' + extra, s)
s = s.replace('#include <string>', '#include <string>\n#include "absl/strings/cord.h"', 1)
open(h, 'w').write(s)
