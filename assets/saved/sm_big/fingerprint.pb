Ó������a�钋����9߄��硺�Z ���������(〓١����2