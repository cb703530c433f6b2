���������ʞ��읕����Ǵҏ �������(�ȏ������2