CHECKS = {
 'P01': dict(harness='p01.cpp', more=['p01a.cpp', 'p01b.cpp', 'p01c.cpp', 'p01d.cpp'], cases=300000),
 'P02': dict(harness='p02.cpp', cases=300000),
 'P03': dict(harness='p03.cpp', cases=150000),
 'P04': dict(harness='p04.cpp', src=['core', 'cls'], cases=300000),
 'P05': dict(harness='p05.cpp', cases=150000),
 'P06': dict(harness='p06.cpp', cases=200000),
 'P07': dict(harness='p07.cpp', cases=200000),
 'P08': dict(harness='p08.cpp', src=['core', 'cls'], cases=60000),
 'P09': dict(harness='p09.cpp', src=['core', 'cls'], cases=150000),
 'P10': dict(harness='p10.cpp', src=['core', 'cls'], cases=60000),
 'P11': dict(harness='p11.cpp', src=['core', 'cls'], cases=200000),
 'P34': dict(harness='p34.cpp', cases=6000000),
 'P15': dict(harness='p15.cpp', cases=400000),
 'P16': dict(harness='p16.cpp', cases=600000),
 'P13': dict(harness='p13.cpp', cases=250000),
 'P14': dict(harness='p14.cpp', cases=300000),
 'P17': dict(harness='p17.cpp', cases=200000),
 'P18': dict(harness='p18.cpp', src=['core', 'cls'], cases=30000),
 'P19': dict(harness='p19.cpp', src=[], cases=20000, san='thread', fuzz_s=0),
 'P20': dict(harness='p20.cpp', src=['core', 'cls'], cases=100000),
 'P21': dict(harness='p21.cpp', more=['p21b.cpp'], cases=300000),
 'P22': dict(harness='p22.cpp', src=['core', 'cls'], cases=140000),
 'P23': dict(harness='p23.cpp', src=['core', 'cls'], cases=150000),
 'P24': dict(harness='p24.cpp', src=['core', 'cls'], cases=30000),
 'P25': dict(harness='p25.cpp', src=['core', 'cls'], cases=45000),
 'P26': dict(harness='p26.cpp', src=['core', 'cls'], cases=60000),
 'P27': dict(harness='p27.cpp', cases=130000),
 'P30': dict(harness='p30.cpp', cases=80000),
 'P29': dict(harness='p29.cpp', cases=200000),
 'P28': dict(harness='p28.cpp', src=['core', 'cls'], cases=150000),
 'P12': dict(harness='p12.cpp', src=['core', 'cls'], cases=100000),
 'P31': dict(harness='p31.cpp', cases=300000),
 'P32': dict(harness='p32.cpp', cases=150000),
 'P33': dict(harness='p33.cpp', cases=40000, src=['core', 'cls']),
 'P35': dict(harness='p35.cpp', cases=30000),
 'P36': dict(harness='p36.cpp', cases=70000),
 'P37': dict(harness='p37.cpp', src=['core', 'cls'], cases=60000),
}
