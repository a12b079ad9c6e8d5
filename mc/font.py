"""Bitmaps of the Text font, 5 columns by 9 rows (drawn from the glyph table and inspected by eye)."""

ART = """
21     22     23     24     25     26     27     28     29     2a     2b     2c     2d     2e     2f     30
..#..  .#.#.  .....  ..#..  ##..#  .#...  ..#..  ...#.  .#...  .....  .....  .....  .....  .....  ....#  .###.
..#..  .#.#.  .....  .####  ##..#  #.#..  ..#..  ..#..  ..#..  .....  .....  .....  .....  .....  ....#  #...#
..#..  .....  .#.#.  #.#..  ...#.  #.#..  .....  .#...  ...#.  #.#.#  ..#..  .....  .....  .....  ...#.  #..##
..#..  .....  #####  .##..  ..#..  .##.#  .....  .#...  ...#.  .###.  ..#..  .....  .....  .....  ..#..  #.#.#
..#..  .....  .#.#.  ..##.  .#...  #..#.  .....  .#...  ...#.  #####  #####  .....  #####  .....  .#...  ##..#
.....  .....  #####  ..#.#  #..##  #..#.  .....  ..#..  ..#..  .###.  ..#..  .....  .....  .....  #....  #...#
..#..  .....  .#.#.  ####.  #..##  .##.#  .....  ...#.  .#...  #.#.#  ..#..  ..#..  .....  ..#..  #....  .###.
.....  .....  .....  ..#..  .....  .....  .....  .....  .....  .....  .....  ..#..  .....  .....  .....  .....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .#...  .....  .....  .....  .....
31     32     33     34     35     36     37     38     39     3a     3b     3c     3d     3e     3f     40
..#..  .###.  ####.  ..##.  #####  .###.  #####  .###.  .###.  .....  .....  ....#  .....  #....  .###.  .###.
.##..  #...#  ....#  .#.#.  #....  #....  ....#  #...#  #...#  .....  .....  ..##.  .....  .##..  #...#  #...#
..#..  ....#  ....#  .#.#.  #....  #....  ....#  #...#  #...#  .....  .....  .#...  .....  ...#.  ....#  #.#.#
..#..  ...#.  .###.  #..#.  ####.  ####.  ...#.  .###.  .####  ..#..  .....  #....  #####  ....#  ...#.  #.#.#
..#..  .##..  ....#  #####  ....#  #...#  ..#..  #...#  ....#  .....  ..#..  .#...  .....  ...#.  ..#..  #.##.
..#..  #....  ....#  ...#.  ....#  #...#  ..#..  #...#  ....#  .....  .....  ..##.  #####  .##..  .....  #....
.###.  #####  ####.  ...#.  ####.  .###.  ..#..  .###.  .###.  ..#..  ..#..  ....#  .....  #....  ..#..  .###.
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  ..#..  .....  .....  .....  .....  .....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .#...  .....  .....  .....  .....  .....
41     42     43     44     45     46     47     48     49     4a     4b     4c     4d     4e     4f     50
.###.  ####.  .####  ###..  #####  #####  .####  #...#  .###.  #####  #...#  #....  #...#  #...#  .###.  ####.
#...#  #...#  #....  #..#.  #....  #....  #....  #...#  ..#..  ...#.  #..#.  #....  ##.##  ##..#  #...#  #...#
#...#  #...#  #....  #...#  #....  #....  #....  #...#  ..#..  ...#.  #.#..  #....  #.#.#  #.#.#  #...#  #...#
#...#  ####.  #....  #...#  ####.  ####.  #.###  #####  ..#..  ...#.  ##...  #....  #.#.#  #.#.#  #...#  ####.
#####  #...#  #....  #...#  #....  #....  #...#  #...#  ..#..  ...#.  #.#..  #....  #...#  #..##  #...#  #....
#...#  #...#  #....  #..#.  #....  #....  #...#  #...#  ..#..  #..#.  #..#.  #....  #...#  #...#  #...#  #....
#...#  ####.  .####  ###..  #####  #....  .####  #...#  .###.  .##..  #...#  #####  #...#  #...#  .###.  #....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....
51     52     53     54     55     56     57     58     59     5a     5b     5c     5d     5e     5f     60
.###.  ####.  .####  #####  #...#  #...#  #...#  #...#  #...#  #####  .###.  #....  .###.  ..#..  .....  .#...
#...#  #...#  #....  ..#..  #...#  #...#  #...#  #...#  #...#  ....#  .#...  #....  ...#.  .#.#.  .....  ..#..
#...#  #...#  #....  ..#..  #...#  #...#  #...#  .#.#.  .#.#.  ...#.  .#...  .#...  ...#.  #...#  .....  .....
#...#  ####.  .###.  ..#..  #...#  #...#  #.#.#  ..#..  .#.#.  ..#..  .#...  ..#..  ...#.  .....  .....  .....
#.#.#  #..#.  ....#  ..#..  #...#  .#.#.  #.#.#  .#.#.  ..#..  .#...  .#...  ...#.  ...#.  .....  .....  .....
#..##  #...#  ....#  ..#..  #...#  .#.#.  #.#.#  #...#  ..#..  #....  .#...  ....#  ...#.  .....  .....  .....
.###.  #...#  ####.  ..#..  .###.  ..#..  .#.#.  #...#  ..#..  #####  .###.  ....#  .###.  .....  #####  .....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....
.....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....  .....
61     62     63     64     65     66     67     68     69     6a     6b     6c     6d     6e     6f     70
.....  #....  .....  ....#  .....  ..###  .....  #....  ..#..  ..#..  #....  .##..  .....  .....  .....  .....
.....  #....  .....  ....#  .....  .#...  .....  #....  .....  .....  #....  ..#..  .....  .....  .....  .....
.###.  ####.  .####  .####  .###.  .#...  .###.  ####.  .##..  .##..  #...#  ..#..  ####.  ####.  .###.  ####.
....#  #...#  #....  #...#  #...#  ####.  #...#  #...#  ..#..  ..#..  #..#.  ..#..  #.#.#  #...#  #...#  #...#
.####  #...#  #....  #...#  #####  .#...  #...#  #...#  ..#..  ..#..  ###..  ..#..  #.#.#  #...#  #...#  #...#
#...#  #...#  #....  #...#  #....  .#...  #...#  #...#  ..#..  ..#..  #..#.  ..#..  #.#.#  #...#  #...#  #...#
.####  ####.  .####  .####  .###.  .#...  .####  #...#  ..##.  ..#..  #...#  ..##.  #.#.#  #...#  .###.  ####.
.....  .....  .....  .....  .....  .....  ....#  .....  .....  ..#..  .....  .....  .....  .....  .....  #....
.....  .....  .....  .....  .....  .....  .###.  .....  .....  ##...  .....  .....  .....  .....  .....  #....
71     72     73     74     75     76     77     78     79     7a     7b     7c     7d     7e
.....  .....  .....  ..#..  .....  .....  .....  .....  .....  .....  ...##  ..#..  ##...  .#..#
.....  .....  .....  ..#..  .....  .....  .....  .....  .....  .....  ..#..  ..#..  ..#..  #.#.#
.###.  #..##  .####  .####  #...#  #...#  #...#  #...#  #...#  #####  ..#..  ..#..  ..#..  #..#.
#...#  ###..  #....  ..#..  #...#  #...#  #.#.#  .#.#.  #...#  ...#.  .##..  ..#..  ..##.  .....
#...#  #....  .###.  ..#..  #...#  .#.#.  #.#.#  ..#..  #...#  ..#..  ..#..  ..#..  ..#..  .....
#...#  #....  ....#  ..#..  #...#  .#.#.  #.#.#  .#.#.  #...#  .#...  ..#..  ..#..  ..#..  .....
.####  #....  ####.  ...##  .###.  ..#..  .#.#.  #...#  .####  #####  ...##  ..#..  ##...  .....
....#  .....  .....  .....  .....  .....  .....  .....  ....#  .....  .....  .....  .....  .....
....#  .....  .....  .....  .....  .....  .....  .....  .###.  .....  .....  .....  .....  .....
"""


def load():
    """{character: set of unit cells (column, row), row 0 at the bottom}"""
    font, rows = {}, ART.strip().splitlines()
    for k in range(0, len(rows), 10):
        for i, code in enumerate(rows[k].split()):
            font[chr(int(code, 16))] = {(x, 8 - y) for y in range(9) for x in range(5) if rows[k + 1 + y][7 * i + x] == "#"}
    return font
