�҉��ߕ���������������꼪q �����Ɍ��(�ȏ������2