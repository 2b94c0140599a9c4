"""Properties this family cannot decide here, and why."""
NA = dict(
 C40='needs the exact result of floating-point division and rounding for every input value; no sound static bound in reach decides whether the printed digits are the nearest ones',
 C41='the memory actually used depends on the allocator and on how many distinct hashes the input contains: a runtime quantity no static argument here bounds',
 C42='a statistical property of many random draws; static analysis sees the code that draws, not the distribution of its results',
 C43='an upper bound on the number of reads in terms of the database size is a complexity statement; the galloping phase depends on the distribution of the hashes',
 C44='real elapsed time between two events cannot be decided from the source; that a timer is armed and handled is part of C17')
