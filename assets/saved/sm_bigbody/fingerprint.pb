���������������!ñ������ ƕ�ඊ���(�ȏ������2