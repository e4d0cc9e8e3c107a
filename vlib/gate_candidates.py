"""Gate tuples to be tried by the gates check; each one is judged at run time by an independent path search."""

CANDIDATES = {
    (1, 2, 1, 0): [
        '(0)->(1)',
    ],
    (1, 2, 2, 0): [
        '(0)->(1)|(0)->(1)',
    ],
    (1, 2, 3, 0): [
        '(0)->(1)|(0)->(1)|(0)->(1)',
    ],
    (1, 3, 1, 0): [
        '(0)->(1)',
    ],
    (1, 3, 2, 0): [
        '(0)->(1)|(0)->(1)',
    ],
    (1, 5, 2, 0): [
        '(0)->(1)|(0)->(1)',
    ],
    (2, 2, 1, 0): [
        '(0,0)->(0,1)',
    ],
    (2, 2, 1, 1): [
    ],
    (2, 2, 2, 0): [
        '(0,0)->(0,1)|(0,0)->(0,1)',
        '(0,0)->(0,1)|(0,0)->(1,1)',
        '(0,0)->(0,1)|(0,0)->(1/2,1)',
        '(0,0)->(0,1)|(0,0)->(2/3,1)',
        '(0,0)->(0,1)|(0,1/2)->(0,1/2)',
        '(0,0)->(0,1)|(0,1/2)->(1,1/2)',
        '(0,0)->(0,1)|(0,1/2)->(1/2,0)',
        '(0,0)->(0,1/2)|(0,0)->(1/2,1)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
    ],
    (2, 2, 2, 1): [
        '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
    ],
    (2, 2, 3, 1): [
        '(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
    ],
    (2, 2, 4, 1): [
        '(0,1/12)->(1,1/12)|(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(0,2/3)|(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/5)->(1/5,1)|(0,1/5)->(1,1/5)|(0,2/5)->(2/5,1)|(0,2/5)->(1,2/5)',
        '(0,1/6)->(0,5/6)|(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/6)->(0,5/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(0,5/6)|(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1,1/6)|(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1,1/6)|(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/3)->(0,2/3)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)|(0,5/12)->(1,5/12)',
        '(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/6)->(1,1/6)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/6)->(1/6,1)|(0,1/6)->(1/6,1)|(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
    ],
    (2, 3, 1, 0): [
        '(0,0)->(0,1)',
        '(0,0)->(1,1)',
    ],
    (2, 3, 1, 1): [
    ],
    (2, 3, 2, 1): [
        '(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
    ],
    (2, 3, 3, 1): [
        '(0,1/10)->(7/10,0)|(0,1/10)->(7/10,1)|(0,1/10)->(1,3/10)',
        '(0,1/10)->(7/10,0)|(0,1/10)->(7/10,1)|(0,1/10)->(1,7/10)',
        '(0,1/12)->(0,11/12)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/12)->(0,3/4)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/12)->(1,1/12)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/12)->(1,1/4)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/12)->(1,11/12)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/12)->(1,3/4)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/12)->(1/12,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/12)->(1/12,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/12)->(3/4,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/12)->(3/4,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/4)->(0,3/4)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)|(0,1/4)->(1,1/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)|(0,1/4)->(1,3/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)|(0,1/4)->(1,3/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(3/4,1)|(0,1/4)->(1,1/4)',
        '(0,1/4)->(1/4,1)|(0,1/4)->(3/4,1)|(0,1/4)->(1,3/4)',
    ],
    (2, 4, 1, 0): [
        '(0,0)->(0,1)',
        '(0,0)->(1/2,1)',
    ],
    (2, 4, 1, 1): [
    ],
    (2, 4, 2, 1): [
        '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)',
        '(0,1/5)->(1/5,1)|(0,1/5)->(1,1/5)',
        '(0,2/5)->(2/5,1)|(0,2/5)->(1,2/5)',
    ],
    (2, 5, 1, 0): [
        '(0,0)->(0,1)',
        '(0,0)->(1,1)',
        '(0,0)->(1/2,1)',
    ],
    (2, 5, 1, 1): [
    ],
    (2, 6, 1, 1): [
    ],
    (2, 7, 1, 1): [
    ],
    (3, 2, 1, 0): [
        '(0,0,0)->(0,0,1)',
        '(0,0,0)->(0,1,1)',
        '(0,0,0)->(0,1/2,1)',
        '(0,0,0)->(1/2,1/2,1)',
        '(0,0,1/3)->(1/3,1,1)',
        '(0,1/3,1/3)->(1/3,1/3,1)',
    ],
    (3, 2, 1, 1): [
        '(0,1/3,1/3)->(1/3,1/3,1)',
    ],
    (3, 2, 2, 1): [
        '(0,1/3,1/3)->(0,1/3,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/3,1/3)->(1/3,0,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/3,1/3)->(1/3,1/3,1)|(0,1/3,1/3)->(1,1/3,1/3)',
        '(0,1/3,1/3)->(1/3,1/3,1)|(0,1/3,1/3)->(1,2/3,2/3)',
        '(0,1/3,1/3)->(1/3,1/3,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/3,1/3)->(1/3,1/3,1)|(0,1/3,1/3)->(2/3,2/3,1)',
        '(0,1/5,1/5)->(1/5,1/5,1)|(0,1/5,1/5)->(3/5,0,2/5)',
        '(0,1/5,1/5)->(1/5,1/5,1)|(0,2/5,2/5)->(2/5,2/5,1)',
        '(0,1/5,1/5)->(3/5,0,2/5)|(0,2/5,2/5)->(2/5,2/5,1)',
        '(0,1/5,2/5)->(1/5,2/5,1)|(0,1/5,2/5)->(2/5,1,1/5)',
        '(0,1/5,2/5)->(1/5,2/5,1)|(0,1/5,2/5)->(3/5,1,4/5)',
        '(0,1/6,1/3)->(0,1/6,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(0,5/6,1/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1,1/3,1/6)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1,1/6,1/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1,2/3,5/6)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/3,1,1/6)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/3,1/6,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/3,5/6,0)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/6,0,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/6,1,1/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(1/6,1/3,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(2/3,5/6,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/3)->(5/6,1,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(0,1/6,5/6)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1,1/3,1/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1,1/6,1/6)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1,2/3,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1/3,0,2/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1/3,0,2/3)|(0,1/6,1/6)->(2/3,2/3,1)',
        '(0,1/6,1/6)->(1/3,1/3,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(1/3,1/3,1)|(0,1/6,1/6)->(2/3,0,1/3)',
        '(0,1/6,1/6)->(1/6,1/6,1)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(2/3,0,1/3)|(0,1/3,1/3)->(1/3,1/3,1)',
        '(0,1/6,1/6)->(2/3,2/3,1)|(0,1/3,1/3)->(1/3,1/3,1)',
    ],
}
