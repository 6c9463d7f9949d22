"""levels claimed in MANIFEST.json"""
P = 'every obligation generated from the current source is discharged, for all inputs; see DESIGN.md for assumptions'
LEVEL = {}
NOTE = {}
for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16'):
    LEVEL[i] = 'proof'
    NOTE[i] = P
